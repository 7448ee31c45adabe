"""C31: sparse Cholesky factors."""
from fractions import Fraction as F
from itertools import combinations, permutations

import numpy as np

from symx.harness import case

LC = 'blmath.numerics.linalg.lchol'

PATTERNS = {
    1: [[]],
    2: [[], [(1, 0)]],
    3: [[], [(1, 0)], [(2, 0)], [(1, 0), (2, 0)], [(1, 0), (2, 1)], [(1, 0), (2, 0), (2, 1)]],
    4: [[(1, 0), (2, 0), (3, 0)], [(2, 0), (3, 1)], [(1, 0), (2, 1), (3, 2)]],
}


def minor(A, idx):
    if not idx:
        return 1
    if len(idx) == 1:
        return A[idx[0]][idx[0]]
    i, rest = idx[0], list(idx[1:])
    tot = 0
    for k, j in enumerate(idx):
        m = det([[A[r][c] for c in idx if c != j] for r in rest])
        tot = tot + (m * A[i][j] if k % 2 == 0 else -m * A[i][j])
    return tot


def det(M):
    if len(M) == 1:
        return M[0][0]
    tot = 0
    for k in range(len(M)):
        d = det([r[:k] + r[k + 1:] for r in M[1:]]) * M[0][k]
        tot = tot + d if k % 2 == 0 else tot - d
    return tot


def positive(t, A):
    """Every principal minor is positive: a consequence of, and with the leading ones equivalent to, definiteness."""
    n = len(A)
    for k in range(1, n + 1):
        for idx in combinations(range(n), k):
            m = minor(A, list(idx))
            t.assume(t.gt(m, 0))
            if not t.symbolic:
                t.assume(t.gt(m, 1e-2))


def spd(t, n, off, kind):
    A = [[t.val(F(0)) for _ in range(n)] for _ in range(n)]
    new = (lambda name: t.integer(name, lo=-20, hi=20, py=False)) if kind == 'int' else (lambda name: t.real(name, lo=-20, hi=20))
    for i in range(n):
        A[i][i] = new('d%d' % i)
    for i, j in off:
        A[i][j] = A[j][i] = new('a%d%d' % (i, j))
    stored = sorted([(i, i) for i in range(n)] + list(off) + [(j, i) for i, j in off])
    return A, stored


def run(t, n, patterns, perms, kinds=('double', 'int'), tiny=False):
    t.on_grid()
    sp = t.lib('scipy.sparse')
    off = t.choice('pattern', patterns)
    kind = t.choice('kind', kinds)
    A, stored = spd(t, n, off, kind)
    positive(t, A)
    scale = F(1, 2 ** 44) if tiny and kind == 'double' and t.flag('tiny') else 1
    if scale != 1:
        A = [[x * t.val(scale) for x in r] for r in A]
    vals = t.array([A[i][j] for i, j in stored])
    if kind == 'int':
        vals = t.int_array(vals)
    row = np.array([s[0] for s in stored])
    col = np.array([s[1] for s in stored])
    fmt = t.choice('format', ['csc', 'csr'])
    M = (sp.csc_matrix if fmt == 'csc' else sp.csr_matrix)((vals, (row, col)), shape=(n, n))
    if n < 3:
        bits = t.choice('64 bits', ['neither', 'both', 'indices', 'pointers'])
        if bits in ('both', 'indices'):
            M.indices = M.indices.astype(np.int64)
        if bits in ('both', 'pointers'):
            M.indptr = M.indptr.astype(np.int64)
    dtype = M.data.dtype
    before = (M.indices.copy(), M.indptr.copy(), (M.indices.dtype, M.indptr.dtype), t.rows(t.ex(M.data.copy())))
    t.cholmod(list(t.choice('permutation', perms)), t.choice('slack', [0, 2]))
    L, bad, S = t.mod(LC).lchol(M)
    t.check(bad == 0, 'positive definite')
    L, S = L.toarray(), S.toarray()
    t.check(tuple(L.shape) == (n, n) and tuple(S.shape) == (n, n), 'square')
    Lr, Sr = t.rows(L), t.rows(S)
    for i in range(n):
        t.check(t.gt(Lr[i][i], 0), 'a positive diagonal')
        for j in range(i + 1, n):
            t.check(t.eq(Lr[i][j], 0), 'lower triangular')
    ones = [[j for j in range(n) if t.branch(t.eq(Sr[i][j], 1))] for i in range(n)]
    t.check(sorted(ones) == [[j] for j in range(n)], 'one one in every row and column')
    t.check(t.eqs(Sr, [[1 if [j] == ones[i] else 0 for j in range(n)] for i in range(n)]), 'a permutation')
    ST = [list(r) for r in zip(*Sr)]
    up = lambda M: M if scale == 1 else [[x * t.val(1 / scale) for x in r] for r in M]
    t.check(t.eqs(up(t.matmul(Lr, [list(r) for r in zip(*Lr)])), up(t.matmul(ST, t.matmul(A, Sr))), 100), 'S^T A S = L L^T')
    t.check(bool((M.indices == before[0]).all() and (M.indptr == before[1]).all()) and (M.indices.dtype, M.indptr.dtype) == before[2], 'the matrix keeps its indices')
    t.check(M.data.dtype == dtype, 'and the type of its entries')
    t.check(t.eqs(t.rows(M.data), before[3]), 'and its entries')
    t.check_unmutated()


@case('C31', 'up to two rows', bounds='all positive definite matrices of one or two rows, real or integer')
def small(t):
    n = t.choice('n', [1, 2])
    run(t, n, PATTERNS[n], list(permutations(range(n))), tiny=True)


@case('C31', 'three rows', bounds='positive definite matrices of three rows, six patterns, any permutation chosen by the solver')
def three(t):
    run(t, 3, PATTERNS[3], list(permutations(range(3))), ('double',))


@case('C31', 'three rows: integers', bounds='three rows of integers, two patterns')
def three_int(t):
    run(t, 3, PATTERNS[3][3:5], [(0, 1, 2), (2, 0, 1)], ('int',))


@case('C31', 'four rows', tier='thorough', bounds='four rows, three patterns, four permutations', deadline=(100, 600))
def four(t):
    run(t, 4, PATTERNS[4], [(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1)], ('double',))


def indefinite(t, n, patterns, perms, kinds):
    t.on_grid()
    sp = t.lib('scipy.sparse')
    off = t.choice('pattern', patterns)
    kind = t.choice('kind', kinds)
    A, stored = spd(t, n, off, kind)
    if not t.symbolic:
        for k in range(1, n + 1):
            for idx in combinations(range(n), k):
                t.assume(abs(minor(A, list(idx))) > 1e-2)
    vals = t.array([A[i][j] for i, j in stored])
    if kind == 'int' and not t.symbolic:
        vals = vals.astype(np.int64)
    M = sp.csc_matrix((vals, ([s[0] for s in stored], [s[1] for s in stored])), shape=(n, n))
    t.cholmod(list(t.choice('permutation', perms)), t.choice('slack', [0, 2]))
    L, bad, S = t.mod(LC).lchol(M)
    t.check(0 <= bad <= n, 'the first column which fails')
    L, S = L.toarray(), S.toarray()
    m = n if bad == 0 else int(bad) - 1
    t.check(tuple(L.shape) == (n, m) and tuple(S.shape) == (n, n), 'the columns before')
    Lr, Sr = t.rows(L), t.rows(S)
    ones = [[j for j in range(n) if t.branch(t.eq(Sr[i][j], 1))] for i in range(n)]
    t.check(sorted(ones) == [[j] for j in range(n)], 'one one in every row and column')
    q = [[o[0] for o in ones].index(j) for j in range(n)]
    P = [[A[a][b] for b in q] for a in q]
    L1 = [r[:m] for r in Lr[:m]]
    for i in range(m):
        t.check(t.gt(L1[i][i], 0), 'a positive diagonal')
        t.check(t.and_(t.const(True), *[t.eq(L1[i][j], 0) for j in range(i + 1, m)]), 'lower triangular')
    if m:
        t.check(t.eqs(t.matmul(L1, [list(r) for r in zip(*L1)]), [r[:m] for r in P[:m]], 100), 'L L^T is the leading block of S^T A S')
    if bad:
        t.check(t.le(det([r[:m + 1] for r in P[:m + 1]]), 0), 'the next leading block is not positive definite')
    t.check_unmutated()


@case('C31', 'any symmetric matrix: up to two rows', bounds='all symmetric matrices of one or two rows, definite or not')
def any_small(t):
    n = t.choice('n', [1, 2])
    indefinite(t, n, PATTERNS[n], list(permutations(range(n))), ('double', 'int'))


@case('C31', 'any symmetric matrix: three rows', bounds='symmetric matrices of three rows, two patterns, two permutations', deadline=(100, 300))
def any_three(t):
    indefinite(t, 3, PATTERNS[3][4:], [(0, 1, 2), (2, 0, 1)], ('double',))


@case('C31', 'not square', bounds='shapes up to 3 x 3')
def oblong(t):
    sp = t.lib('scipy.sparse')
    r, c = t.choice('shape', [(1, 2), (2, 1), (2, 3), (3, 2), (3, 1)])
    M = sp.csc_matrix((t.array([t.real('x', pos=True)]), ([0], [0])), shape=(r, c))
    t.cholmod(None, 0)
    t.check(t.raises(lambda: t.mod(LC).lchol(M), ValueError), 'refused with ValueError')


@case('C31', 'larger matrices', bounds='tridiagonal and arrow matrices of 8 and 12 rows with any first diagonal entry of at least 2, three permutations')
def larger(t):
    t.on_grid()
    sp = t.lib('scipy.sparse')
    n = t.choice('n', [8, 12])
    kind = t.choice('pattern', ['tridiagonal', 'arrow'])
    x = t.real('x', lo=2, hi=20)
    A = [[t.val(F(0)) for _ in range(n)] for _ in range(n)]
    for i in range(n):
        A[i][i] = t.val(4 if kind == 'tridiagonal' else 1 if i < n - 1 else n)
    A[0][0] = x
    for i in range(n - 1):
        j = i + 1 if kind == 'tridiagonal' else n - 1
        A[i][j] = A[j][i] = t.val(F(1, 2) if i % 2 else F(-1, 2))
    stored = sorted((i, j) for i in range(n) for j in range(n) if i == j or not (isinstance(A[i][j], (int, F)) and A[i][j] == 0)
                    and (abs(i - j) == 1 if kind == 'tridiagonal' else n - 1 in (i, j)))
    vals = t.array([A[i][j] for i, j in stored])
    M = sp.csc_matrix((vals, ([s[0] for s in stored], [s[1] for s in stored])), shape=(n, n))
    perm = t.choice('permutation', [list(range(n)), list(range(n))[::-1], [(5 * i + 3) % n for i in range(n)]])
    t.cholmod(perm, 0)
    L, bad, S = t.mod(LC).lchol(M)
    t.check(bad == 0, 'positive definite')
    Lr, Sr = t.rows(L.toarray()), t.rows(S.toarray())
    ones = [[j for j in range(n) if t.branch(t.eq(Sr[i][j], 1))] for i in range(n)]
    t.check(sorted(ones) == [[j] for j in range(n)], 'one one in every row and column')
    for i in range(n):
        t.check(t.gt(Lr[i][i], 0), 'a positive diagonal')
        t.check(t.and_(t.const(True), *[t.eq(Lr[i][j], 0) for j in range(i + 1, n)]), 'lower triangular')
    q = [[o[0] for o in ones].index(j) for j in range(n)]
    want = [[A[a][b] for b in q] for a in q]
    t.check(t.eqs(t.matmul(Lr, [list(r) for r in zip(*Lr)]), want, 100), 'S^T A S = L L^T')
    t.check_unmutated()
