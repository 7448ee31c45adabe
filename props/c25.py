"""C25: block sparse matrices and conjugate gradients."""
from fractions import Fraction as F
import numpy as np

from symx.harness import case

S = 'blmath.numerics.linalg.static_block_sparse_matrix'
CG = 'blmath.numerics.linalg.sparse_cg'

FULL = [(i, j) for i in range(3) for j in range(2)]
PATTERNS = {
    '3x2': ((3, 2), [[(0, 0), (1, 0), (1, 1), (2, 1)], FULL, [(0, 1)], []]),
    '2x3': ((2, 3), [[(0, 0), (0, 2), (1, 1), (1, 2)], [(i, j) for i in range(2) for j in range(3)]]),
    '3x3': ((3, 3), [[(0, 0), (0, 1), (1, 0), (1, 2), (2, 2)], [(i, j) for i in range(3) for j in range(3)]]),
    '1x1': ((1, 1), [[(0, 0)], []]),
}


def matrix(t, shape, pattern, fmt='csr', name='m', dup=False, vals=None):
    """A scipy.sparse matrix with symbolic entries at the given places, and the dense rows."""
    sp = t.lib('scipy.sparse')
    vals = t.arr(name, max(len(pattern), 1)) if vals is None else vals
    data = vals[:len(pattern)]
    ex = t.rows(t.ex(data)) if len(pattern) else []
    dense = [[t.val(F(0)) for _ in range(shape[1])] for _ in range(shape[0])]
    for (i, j), v in zip(pattern, ex):
        dense[i][j] = dense[i][j] + v
    row = np.array([p[0] for p in pattern], dtype=np.int64)
    col = np.array([p[1] for p in pattern], dtype=np.int64)
    if fmt == 'array':
        return t.array(dense), dense
    M = sp.coo_matrix((data, (row, col)), shape=shape)
    return (M.tocsr() if fmt == 'csr' else M.tocsc() if fmt == 'csc' else M), dense


def mv(t, D, v):
    return [t.dot(r, v) for r in D]


def is_dense(t, A, D, label, scale=100):
    A = A.toarray() if hasattr(A, 'toarray') else A
    t.check(tuple(A.shape) == (len(D), len(D[0]) if D else A.shape[1]), label)
    for i, r in enumerate(D):
        for j, x in enumerate(r):
            t.check(t.eq(A[i, j], x, scale), label)


def masks(t, n, name):
    b = [t.flag('%s%d' % (name, i)) for i in range(n)]
    return np.array(b, dtype=bool), b


def blocks(name, fmts=('csr', 'coo', 'csc'), tier='quick'):
    shape, pats = PATTERNS[name]

    @case('C25', 'block products: ' + name, tier=tier,
          bounds='%s matrices with %d patterns of any entries, every split into sparse and dense rows and columns' % (name, len(pats)))
    def f(t):
        St = t.mod(S).StaticBlockSparseMatrix
        n, m = shape
        fmt = t.choice('format', list(fmts))
        M, D = matrix(t, shape, t.choice('pattern', pats), fmt)
        rm, rb = masks(t, n, 'r')
        cm, cb = masks(t, m, 'c')
        B = St(M, rm.copy(), cm.copy())
        t.check(B.shape == shape, 'shape')
        rs, rd = [i for i in range(n) if rb[i]], [i for i in range(n) if not rb[i]]
        cs, cd = [i for i in range(m) if cb[i]], [i for i in range(m) if not cb[i]]
        t.check((B.num_sparse_rows, B.num_dense_rows, B.num_sparse_columns, B.num_dense_columns) ==
                (len(rs), len(rd), len(cs), len(cd)), 'counts of sparse and dense rows and columns')
        t.check([list(x) for x in (B.sparse_row_indices, B.dense_row_indices, B.sparse_column_indices, B.dense_column_indices)] ==
                [rs, rd, cs, cd], 'indices of sparse and dense rows and columns')
        if rd:
            is_dense(t, B.block_d, [D[i] for i in rd], 'the dense rows')
            is_dense(t, B.block_ds, [[D[i][j] for j in cs] for i in rd], 'the dense rows of the sparse columns')
            is_dense(t, B.block_dd, [[D[i][j] for j in cd] for i in rd], 'the dense rows of the dense columns')
        if rs:
            is_dense(t, B.block_sd, [[D[i][j] for j in cd] for i in rs], 'the sparse rows of the dense columns')
        if rs and cs:
            is_dense(t, B.sparse_block, [[D[i][j] for j in cs] for i in rs], 'the sparse rows of the sparse columns')
        v = t.arr('v', m)
        want = mv(t, D, t.rows(t.ex(v)))
        t.check(t.eqs(t.rows(B.matvec(v)), want, 1000), 'times a vector')
        op = B.linOp
        t.check(tuple(op.shape) == shape, 'shape of the operator')
        t.check(t.eqs(t.rows(op.matvec(v)), want, 1000), 'the operator times a vector')
        w = t.arr('w', (m, 2))
        W = t.rows(t.ex(w))
        want = [[t.dot(r, [W[k][j] for k in range(m)]) for j in range(2)] for r in D]
        is_dense(t, B.matmat(w), want, 'times a matrix', 1000)
        is_dense(t, op.matmat(w), want, 'the operator times a matrix', 1000)
        is_dense(t, B.MMT(), [[t.dot(a, b) for b in D] for a in D], 'M times its transpose', 1000)
        cols = [[r[j] for r in D] for j in range(m)]
        is_dense(t, B.MTM(), [[t.dot(a, b) for b in cols] for a in cols], 'the transpose times M', 1000)
        is_dense(t, M, D, 'the matrix is not altered')
        t.check_unmutated()
    return f


@case('C25', 'integers', bounds='2x3 and 3x2 matrices of any integers up to 9, times any integers or any numbers, every split into sparse and dense rows and columns')
def integers(t):
    St = t.mod(S).StaticBlockSparseMatrix
    shape, pat = t.choice('matrix', [((3, 2), PATTERNS['3x2'][1][0]), ((2, 3), PATTERNS['2x3'][1][0])])
    n, m = shape
    M, D = matrix(t, shape, pat, vals=t.ints('m', len(pat), -9, 9))
    B = St(M, masks(t, n, 'r')[0], masks(t, m, 'c')[0])
    v = t.ints('v', m, -9, 9) if t.flag('whole') else t.arr('v', m)
    want = mv(t, D, t.rows(t.ex(v)))
    t.check(t.eqs(t.rows(B.matvec(v)), want, 1000), 'times a vector')
    t.check(t.eqs(t.rows(B.linOp.matvec(v)), want, 1000), 'the operator times a vector')
    is_dense(t, B.MMT(), [[t.dot(a, b) for b in D] for a in D], 'M times its transpose', 1000)
    t.check_unmutated()


blocks('3x2')
blocks('2x3', ('csr', 'coo'))
blocks('1x1')
blocks('3x3', ('csr',), tier='thorough')


@case('C25', 'which rows and columns are dense', bounds='3x2, 2x3 and 4x4 patterns, five thresholds, either mask or both given, or empty')
def sparsity(t):
    St = t.mod(S).StaticBlockSparseMatrix
    shape, pat = t.choice('matrix', [((3, 2), p) for p in PATTERNS['3x2'][1]] + [((2, 3), p) for p in PATTERNS['2x3'][1]] +
                          [((4, 4), [(0, 0), (1, 1), (2, 2), (3, 3), (0, 1), (0, 2), (0, 3), (1, 0), (2, 0)])])
    n, m = shape
    M, D = matrix(t, shape, pat, t.choice('format', ['csr', 'coo']))
    th = t.choice('threshold', [None, 0.05, 0.3, 0.5, 0.8, 1.5])
    given = t.choice('given', ['none', 'rows', 'columns', 'empty'])
    kw = {} if th is None else {'sparsity_threshold': th}
    if given in ('rows', 'empty'):
        kw['row_sparsity'] = np.array([True] * (n - 1) + [False]) if given == 'rows' else np.array([], dtype=bool)
    if given in ('columns', 'empty'):
        kw['column_sparsity'] = np.array([False] + [True] * (m - 1)) if given == 'columns' else np.array([], dtype=bool)
    B = St(M, **kw)
    limit = F(th or 0.05) * max(n, m)
    rows = [sum(1 for p in pat if p[0] == i) < limit for i in range(n)]
    cols = [sum(1 for p in pat if p[1] == j) < limit for j in range(m)]
    if given in ('rows', 'empty'):
        rows = [True] * (n - 1) + [given == 'empty']
    if given in ('columns', 'empty'):
        cols = [given == 'empty'] + [True] * (m - 1)
    t.check(list(B.row_sparsity) == rows and list(B.row_density) == [not x for x in rows], 'rows with few entries are sparse')
    t.check(list(B.column_sparsity) == cols and list(B.column_density) == [not x for x in cols], 'columns with few entries are sparse')
    v = t.arr('v', m)
    t.check(t.eqs(t.rows(B.matvec(v)), mv(t, D, t.rows(t.ex(v))), 1000), 'times a vector')
    is_dense(t, B.MMT(), [[t.dot(a, b) for b in D] for a in D], 'M times its transpose', 1000)


def small(t, B, D, x, b, tol):
    got = B.matvec(x)
    t.check(t.eqs(t.rows(got), mv(t, D, t.rows(x)), 1000), 'times a vector')
    t.check(t.lt(t.sqrt((b - got).dot(b - got)), t.val(tol) if t.symbolic else 1e-5), 'the solution of the system')


def spd2(t):
    """Entries of L L^T for a lower triangular L with positive diagonal."""
    a, b, c = t.real('a', lo=F(1, 2), hi=2), t.real('b', lo=-2, hi=2), t.real('c', lo=F(1, 2), hi=2)
    return [t.ex(a) * t.ex(a), t.ex(a) * t.ex(b), t.ex(b) * t.ex(b) + t.ex(c) * t.ex(c)]


def cg(name, bounds, tier='quick', deadline=None):
    def deco(pick):
        @case('C25', 'conjugate gradients: ' + name, tier=tier, deadline=deadline, bounds=bounds)
        def f(t):
            St = t.mod(S).StaticBlockSparseMatrix
            A, b, x0, kw = pick(t)
            n = len(A)
            pat = [(i, j) for i in range(n) for j in range(n) if not (isinstance(A[i][j], int) and A[i][j] == 0)]
            M, D = matrix(t, (n, n), pat, vals=t.array([A[i][j] for i, j in pat]))
            m = t.choice('split', ['ss', 'dd', 'mm', 'sm', 'md'] if n > 1 else ['ss', 'dd'])
            m = [{'s': np.ones(n, dtype=bool), 'd': np.zeros(n, dtype=bool), 'm': np.arange(n) % 2 == 0}[k] for k in m]
            B = St(M, *m)
            b = t.track(t.array(b), 'b')
            if x0 is not None:
                kw = dict(kw, x0=t.track(t.array(x0), 'x0'))
            x, i = B.conjGradSolve(b, **kw)
            t.check(x.shape == (n,), 'one number per unknown')
            small(t, B, D, x, b, F(1, 10 ** (6 if 'tol' in kw else 9)))
            t.check(i is None or 0 <= i < (n if t.symbolic else kw.get('maxiter', n)), 'in as many steps as there are unknowns')
            t.check_unmutated()
        return f
    return deco


OPTIONS = [{}, {'tol': 1e-6}, {'maxiter': 5}]
TWO = [[[2, 1], [1, 3]], [[1, 0], [0, 4]], [[5, -2], [-2, 1]], [[F(1, 2), F(1, 4)], [F(1, 4), 2]]]
RHS = [[1, 0], [0, -3], [2, 1], [-1, 5]]


@cg('1x1', 'every positive number and right side up to 10, any starting point or none')
def cg1(t):
    return ([[t.real('a', lo=F(1, 10), hi=10)]], [t.real('b', lo=-10, hi=10)], [t.real('x', lo=-10, hi=10)] if t.flag('x0') else None,
            t.choice('options', OPTIONS))


@cg('2x2, any right side', 'four positive definite 2x2 matrices, every right side and starting point up to 10', deadline=(100, 600))
def cg2(t):
    b = [t.real('b0', lo=-10, hi=10), t.real('b1', lo=-10, hi=10)]
    x0 = [t.real('x0', lo=-10, hi=10), t.choice('x1', [0, 2])] if t.flag('x') else None
    return t.choice('matrix', TWO), b, x0, t.choice('options', OPTIONS[:2])


@cg('2x2, matrices', 'the matrices 1 k / k k^2+1 and k 1 / 1 2 with any k up to 2, four right sides, two starting points or none', deadline=(100, 600))
def cg2m(t):
    k = t.real('k', lo=-2, hi=2)
    if t.flag('second'):
        t.assume(t.gt(k, F(3, 4)))
        A = [[k, 1], [1, 2]]
    else:
        A = [[1, k], [k, k * k + 1]]
    return A, t.choice('b', RHS), t.choice('x0', [None, [1, 1], [0, -2]]), {}


@cg('3x3', 'two positive definite 3x3 matrices, right sides a b1 + c b2 with any a and c up to 10', deadline=(100, 600))
def cg3(t):
    a, c = t.real('a', lo=-10, hi=10), t.real('c', lo=-10, hi=10)
    u, w = [1, 2, -1], [0, 1, 3]
    return (t.choice('matrix', [[[2, -1, 0], [-1, 2, -1], [0, -1, 2]], [[4, 1, 0], [1, 3, -1], [0, -1, 2]]]),
            [a * x + c * y for x, y in zip(u, w)], None, t.choice('options', OPTIONS[:1]))


@cg('matrices of any size', 'two positive definite 2x2 matrices times 2^-30 or 2^30, every right side up to 10', deadline=(100, 400))
def cgsize(t):
    k = t.choice('size', [F(1, 2 ** 30), F(2 ** 30)])
    b = [t.real('b0', lo=-10, hi=10), t.real('b1', lo=-10, hi=10)]
    return [[a * k for a in r] for r in t.choice('matrix', TWO[1:3])], b, None, {}


@case('C25', 'conjugate gradients: limited steps', bounds='2x2 and 3x3 matrices, any right side up to 10, one step')
def cglimit(t):
    St = t.mod(S).StaticBlockSparseMatrix
    A = t.choice('matrix', TWO + [[[2, -1, 0], [-1, 2, -1], [0, -1, 2]]])
    n = len(A)
    pat = [(i, j) for i in range(n) for j in range(n) if A[i][j]]
    M, D = matrix(t, (n, n), pat, vals=t.array([A[i][j] for i, j in pat]))
    b = t.arr('b', n, lo=-10, hi=10)
    bs = t.rows(t.ex(b))
    t.assume(t.gt(t.norm2(bs), F(1, 100)))
    x, i = St(M, np.ones(n, dtype=bool), np.ones(n, dtype=bool)).conjGradSolve(b, maxiter=1)
    t.check(i == 0, 'stops after one step')
    k = t.norm2(bs)
    d = t.dot(bs, mv(t, D, bs))
    for y, z in zip(t.rows(x), bs):
        t.check(t.eq(y * d, k * z, 1000), 'the first step goes to the least point along the right side')


@case('C25', 'block_sparse_cg_solve', bounds='positive definite 2x2 blocks with entries of L up to 2, with an empty row and column, with a column of '
      '1000 stored entries, or neither; any right side up to 10')
def solve(t):
    fn = t.mod(CG).block_sparse_cg_solve
    sp = t.lib('scipy.sparse')
    kind = t.choice('kind', ['all sparse', 'empty first', 'empty middle', 'empty last', 'diagonal', 'dense first', 'dense last', 'dense and empty', 'all dense'])
    p, q, r = (t.val(F(2)), t.val(F(1)), t.val(F(3))) if kind.startswith('dense') and not t.thorough else spd2(t)
    if kind == 'diagonal':
        q = t.val(F(0))
    at = {'empty first': (1, 2), 'empty middle': (0, 2), 'dense and empty': (0, 2)}.get(kind, (0, 1))
    n = 3 if 'empty' in kind else 2
    ents = [(at[0], at[0], p), (at[1], at[1], r)] + ([] if kind == 'diagonal' else [(at[0], at[1], q), (at[1], at[0], q)])
    D = [[t.val(F(0))] * n for _ in range(n)]
    for i, j, v in ents:
        D[i][j] = v
    many = {'dense first': [at[0]], 'dense and empty': [at[0]], 'dense last': [at[1]], 'all dense': [0, 1]}.get(kind, [])
    for k in many:
        # stored zeros make the column count as dense
        ents = ents + [(k, k, t.val(F(0)))] * 1000
    A = sp.coo_matrix((t.array([e[2] for e in ents]), (np.array([e[0] for e in ents]), np.array([e[1] for e in ents]))), shape=(n, n))
    if not many:
        A = A.tocsc() if t.flag('csc') else A.tocsr()
    y = t.arr('y', 2, lo=-10, hi=10)
    ys = t.rows(t.ex(y))
    full = [t.val(F(0))] * n
    full[at[0]], full[at[1]] = ys
    t.assume(t.gt(t.abs(ys[0]) + t.abs(ys[1]), F(1, 100)))
    b = t.track(t.array(full))
    x = fn(A, b)
    t.check(x.shape == (n,), 'one number per unknown')
    res = t.sub(mv(t, D, t.rows(x)), t.rows(t.ex(b)))
    t.check(t.le(t.norm2(res), t.norm2(full) * F(1, 10 ** 9)), 'the solution of the system')
    is_dense(t, A, D, 'the matrix is not altered')
    t.check_unmutated()
