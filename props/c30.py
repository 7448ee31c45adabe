"""C30: the C extension behind lchol."""
from symx.bmc import Bmc
from symx.harness import Case, CASES

SRC = 'blmath/numerics/linalg/cholmod.c'


def add(name, n, anz, **kw):
    lnz = n * (n + 1) // 2
    CASES.append(Case('C30', name, None, bounds='matrices of up to %d rows and columns with up to %d entries, any factor with up to %d entries, any column '
                      'of failure, refusals at every step' % (n, anz, lnz),
                      ext=Bmc('lchol.c', SRC, ['NMAX=%d' % n, 'ANZ=%d' % anz], max(14, lnz + 4)), **kw))


add('up to two columns', 2, 3, deadline=(150, 400))
add('up to three columns', 3, 4, deadline=(300, 900))
add('up to four columns', 4, 5, tier='thorough', deadline=(100, 2400))
