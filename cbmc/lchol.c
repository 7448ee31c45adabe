/* What an extension module for lchol has to do, as assertions for CBMC.  The functions of Python, numpy
   and CHOLMOD are models of their contracts; the code under test is included below, as it is in the tree.
   The same file compiled natively (with -DNATIVE) replays the inputs of a counterexample. */
#include <Python.h>
#include <numpy/arrayobject.h>
#include <cholmod.h>
#include <stdarg.h>
#ifndef NMAX
#define NMAX 3
#endif
#ifndef ANZ
#define ANZ 4
#endif
#ifndef LNZ
#define LNZ (NMAX * (NMAX + 1) / 2)
#endif

#ifdef NATIVE
static int failed = 0;
static void check(int ok, const char *what) { if (!ok) { fprintf(stderr, "FAILED: %s\n", what); failed = 1; } }
static void need(int ok, const char *what) { check(ok, what); if (!ok) exit(3); }
static void known(int ok, const char *what) { if (!ok) { fprintf(stderr, "MODEL: %s\n", what); exit(failed ? 3 : 4); } }
static long in(long lo, long hi) { long v; if (scanf("%ld", &v) != 1) v = lo; if (v < lo || v > hi) exit(4); return v; }
#define reach(what) fprintf(stderr, "REACHED: %s\n", what)
#define ASSUME(c) do { if (!(c)) exit(4); } while (0)
#else
#define check(ok, what) __CPROVER_assert(ok, what)
#define need(ok, what) do { __CPROVER_assert(ok, what); __CPROVER_assume(ok); } while (0)
/* where the code does what the models do not cover, nothing is decided */
#define known(ok, what) do { __CPROVER_assert(ok, "model: " what); __CPROVER_assume(ok); } while (0)
long nondet_long(void);
static long IN;
static long in(long lo, long hi) { long v = nondet_long(); __CPROVER_assume(v >= lo && v <= hi); IN = v; return v; }
#define reach(what) __CPROVER_assert(0, "reach: " what)
#define ASSUME(c) __CPROVER_assume(c)
#endif

/* ---- Python ---- */
enum { K_DEAD, K_LONG, K_TUPLE, K_ARRAY, K_MATRIX, K_MODULE, K_ERROR };
typedef struct { PyObject ob_base; long value; } LongObject;
typedef struct { PyObject ob_base; long n; PyObject *item[6]; } TupleObject;
typedef struct { PyObject ob_base; PyArrayObject *indptr, *indices, *data; long nrow, ncol, nnz; } MatrixObject;

static int live = 0;            /* objects made and not yet given back */
static PyObject *error = NULL;
static PyObject err[7] = {{1, K_ERROR}, {1, K_ERROR}, {1, K_ERROR}, {1, K_ERROR}, {1, K_ERROR}, {1, K_ERROR}, {1, K_ERROR}};
PyObject *PyExc_ValueError = &err[0], *PyExc_TypeError = &err[1], *PyExc_RuntimeError = &err[2], *PyExc_MemoryError = &err[3],
         *PyExc_AttributeError = &err[4], *PyExc_SystemError = &err[5], *PyExc_Exception = &err[6];
PyObject model_none = {1000, K_ERROR};

static int is(const char *a, const char *b)
{
    int k = 0;
    while (a[k] != 0 && a[k] == b[k]) k++;
    return a[k] == b[k];
}
static void gone(PyObject *o)
{
    o->kind = K_DEAD;
    live--;
#ifdef NATIVE
    free(o);
#endif
}
void model_incref(PyObject *o) { need(o != NULL && o->kind != K_DEAD, "references are taken to live objects only"); o->ob_refcnt++; }
static void decref_leaf(PyObject *o)
{
    need(o != NULL && o->kind != K_DEAD && o->ob_refcnt > 0, "references are given back once");
    if (--o->ob_refcnt == 0) {
        if (o->kind == K_ARRAY) free(((PyArrayObject *) o)->data);
        gone(o);
    }
}
void model_decref(PyObject *o)
{
    need(o != NULL && o->kind != K_DEAD && o->ob_refcnt > 0, "references are given back once");
    if (o->kind == K_TUPLE && o->ob_refcnt == 1) {
        TupleObject *t = (TupleObject *) o;
        for (int k = 0; k < 6; k++) if (k < t->n && t->item[k] != NULL) decref_leaf(t->item[k]);
        o->ob_refcnt = 0;
        gone(o);
    }
    else
        decref_leaf(o);
}
PyObject *PyLong_FromLong(long v)
{
    LongObject *o = malloc(sizeof(LongObject));
    ASSUME(o != NULL);
    o->ob_base.ob_refcnt = 1; o->ob_base.kind = K_LONG; o->value = v; live++;
    return (PyObject *) o;
}
long PyLong_AsLong(PyObject *o)
{
    need(o != NULL && o->kind == K_LONG, "numbers are read from integers");
    return ((LongObject *) o)->value;
}
PyObject *PyTuple_New(Py_ssize_t n)
{
    TupleObject *o = malloc(sizeof(TupleObject));
    ASSUME(o != NULL);
    known(n >= 0 && n <= 6, "tuples the model knows");
    o->ob_base.ob_refcnt = 1; o->ob_base.kind = K_TUPLE; o->n = n; live++;
    for (int k = 0; k < 6; k++) o->item[k] = NULL;
    return (PyObject *) o;
}
PyObject *PyList_New(Py_ssize_t n) { return PyTuple_New(n); }
int PyTuple_SetItem(PyObject *t, Py_ssize_t k, PyObject *o)
{
    need(t != NULL && t->kind == K_TUPLE && k >= 0 && k < ((TupleObject *) t)->n, "items within tuples");
    ((TupleObject *) t)->item[k] = o;
    return 0;
}
int PyList_SetItem(PyObject *t, Py_ssize_t k, PyObject *o) { return PyTuple_SetItem(t, k, o); }
PyObject *PyTuple_GetItem(PyObject *t, Py_ssize_t k)
{
    need(t != NULL && t->kind == K_TUPLE && k >= 0 && k < ((TupleObject *) t)->n, "items within tuples");
    return ((TupleObject *) t)->item[k];
}
Py_ssize_t PyTuple_Size(PyObject *t) { need(t != NULL && t->kind == K_TUPLE, "the size of a tuple"); return ((TupleObject *) t)->n; }
PyObject *PySequence_GetItem(PyObject *t, Py_ssize_t k) { PyObject *o = PyTuple_GetItem(t, k); model_incref(o); return o; }
PyObject *PyTuple_Pack(Py_ssize_t n, ...)
{
    PyObject *t = PyTuple_New(n);
    va_list ap;
    va_start(ap, n);
    for (int k = 0; k < 6; k++) if (k < n) { PyObject *o = va_arg(ap, PyObject *); model_incref(o); PyTuple_SetItem(t, k, o); }
    va_end(ap);
    return t;
}
PyObject *Py_BuildValue(const char *f, ...)
{
    TupleObject *t = (TupleObject *) PyTuple_New(0);
    va_list ap;
    va_start(ap, f);
    for (int k = 0; k < 12; k++) {
        if (f[k] == 0) break;
        if (f[k] == '(' || f[k] == ')' || f[k] == '[' || f[k] == ']' || f[k] == ' ' || f[k] == ',') continue;
        known(t->n < 6, "tuples the model knows");
        if (f[k] == 'N' || f[k] == 'O') {
            PyObject *o = va_arg(ap, PyObject *);
            need(o != NULL && o->kind != K_DEAD, "results are live objects");
            if (f[k] == 'O') model_incref(o);
            t->item[t->n++] = o;
        }
        else if (f[k] == 'i')
            t->item[t->n++] = PyLong_FromLong(va_arg(ap, int));
        else {
            known(f[k] == 'l' || f[k] == 'n' || f[k] == 'L' || f[k] == 'k', "formats the model knows");
            t->item[t->n++] = PyLong_FromLong(va_arg(ap, long));
        }
    }
    va_end(ap);
    return (PyObject *) t;
}
void PyErr_SetString(PyObject *type, const char *what) { need(type != NULL && what != NULL, "exceptions have a type"); error = type; }
PyObject *PyErr_Format(PyObject *type, const char *what, ...) { PyErr_SetString(type, what); return NULL; }
PyObject *PyErr_NoMemory(void) { error = PyExc_MemoryError; return NULL; }
PyObject *PyErr_Occurred(void) { return error; }
void PyErr_Clear(void) { error = NULL; }

static MatrixObject *matrix;
static PyModuleDef *module = NULL;
static PyObject module_object = {1, K_MODULE};
static int module_fails = 0, parse_fails = 0, parsed = 0;

PyObject *PyModule_Create(PyModuleDef *def) { module = def; return module_fails ? NULL : &module_object; }
static TupleObject args;
int PyArg_ParseTuple(PyObject *t, const char *f, ...)
{
    va_list ap;
    long k = 0, n = 0;
    parsed++;
    need(t != NULL && t->kind == K_TUPLE, "arguments are read from tuples");
    if (t == (PyObject *) &args && parse_fails) { error = PyExc_TypeError; return 0; }
    for (int c = 0; c < 12; c++) {
        if (f[c] == 0 || f[c] == ':' || f[c] == ';') break;
        if (f[c] == '!') continue;
        known(f[c] == 'O' || f[c] == 'l' || f[c] == 'L' || f[c] == 'n' || f[c] == 'k' || f[c] == 'i', "formats of arguments");
        n++;
    }
    if (n != ((TupleObject *) t)->n) { error = PyExc_TypeError; return 0; }
    va_start(ap, f);
    for (int c = 0; c < 12; c++) {
        if (f[c] == 0 || f[c] == ':' || f[c] == ';') break;
        if (f[c] == '!') continue;
        PyObject *o = ((TupleObject *) t)->item[k++];
        if (f[c] == 'O') { if (f[c + 1] == '!') (void) va_arg(ap, void *); *va_arg(ap, PyObject **) = o; }
        else if (f[c] == 'i') *va_arg(ap, int *) = (int) PyLong_AsLong(o);
        else *va_arg(ap, long *) = PyLong_AsLong(o);
    }
    va_end(ap);
    return 1;
}
PyObject *PyObject_GetAttrString(PyObject *o, const char *name)
{
    need(o != NULL && o->kind != K_DEAD, "attributes of live objects");
    known(o == (PyObject *) matrix, "attributes of the matrix");
    if (is(name, "shape")) {
        PyObject *t = PyTuple_New(2);
        PyTuple_SetItem(t, 0, PyLong_FromLong(matrix->nrow));
        PyTuple_SetItem(t, 1, PyLong_FromLong(matrix->ncol));
        return t;
    }
    if (is(name, "nnz") || is(name, "size")) return PyLong_FromLong(matrix->nnz);
    PyObject *a = NULL;
    if (is(name, "indptr")) a = (PyObject *) matrix->indptr;
    if (is(name, "indices")) a = (PyObject *) matrix->indices;
    if (is(name, "data")) a = (PyObject *) matrix->data;
    if (a == NULL) { error = PyExc_AttributeError; return NULL; }
    model_incref(a);
    return a;
}
int PyObject_HasAttrString(PyObject *o, const char *name)
{
    return is(name, "shape") || is(name, "nnz") || is(name, "size") || is(name, "indptr") || is(name, "indices") || is(name, "data");
}
PyObject *PyArray_SimpleNew(int nd, npy_intp *dims, int type)
{
    PyArrayObject *a = malloc(sizeof(PyArrayObject));
    known(nd == 1 && dims[0] >= 0 && dims[0] <= 64, "vectors the model knows");
    ASSUME(a != NULL);
    a->ob_base.ob_refcnt = 1; a->ob_base.kind = K_ARRAY; live++;
    a->nd = 1; a->dims[0] = dims[0]; a->dims[1] = 0; a->type = type;
    a->itemsize = type == NPY_INT32 || type == NPY_FLOAT ? 4 : 8;
    a->data = malloc((dims[0] ? dims[0] : 1) * a->itemsize);
    ASSUME(a->data != NULL);
    return (PyObject *) a;
}
PyObject *PyArray_ZEROS(int nd, npy_intp *dims, int type, int order)
{
    PyArrayObject *a = (PyArrayObject *) PyArray_SimpleNew(nd, dims, type);
    for (long k = 0; k < 8 * (LNZ + 2); k++) if (k < a->dims[0] * a->itemsize) a->data[k] = 0;
    return (PyObject *) a;
}

/* ---- CHOLMOD ---- */
static cholmod_common *common = NULL;
static int finished = 0, factors = 0, sparses = 0, refused = 0;
static long in_p[NMAX + 2], in_i[ANZ], in_x[ANZ];           /* the matrix, as given */
static long out_minor, out_p[NMAX + 1], out_i[LNZ], out_x[LNZ], out_perm[NMAX];     /* the factor, as CHOLMOD knows it */
static int dropped = 0;

static void common_ok(cholmod_common *c) { need(c != NULL && c == common && c->started && !finished, "CHOLMOD is started, and not finished yet"); }
int cholmod_l_start(cholmod_common *c)
{
    c->started = 1; common = c; finished = 0;
    c->supernodal = CHOLMOD_AUTO; c->final_asis = 1; c->final_super = 1; c->final_ll = 0; c->final_pack = 1; c->final_monotonic = 1;
    c->final_resymbol = 0; c->prefer_zomplex = 0; c->quick_return_if_not_posdef = 0; c->print = 3; c->nmethods = 0; c->postorder = 1;
    c->status = CHOLMOD_OK; c->dbound = 0; c->metis_memory = 2.0; c->itype = CHOLMOD_LONG; c->dtype = CHOLMOD_DOUBLE;
    return 1;
}
int cholmod_l_finish(cholmod_common *c) { common_ok(c); finished = 1; return 1; }

static int same_matrix(cholmod_sparse *A)
{
    int ok = 1;
    for (int k = 0; k <= NMAX + 1; k++) if (k <= matrix->ncol && ((long *) A->p)[k] != in_p[k]) ok = 0;
    for (int k = 0; k < ANZ; k++) if (k < matrix->nnz && (((long *) A->i)[k] != in_i[k] || ((double *) A->x)[k] != (double) in_x[k])) ok = 0;
    return ok;
}
static void matrix_ok(cholmod_sparse *A)
{
    need(A != NULL && A->nrow == (size_t) matrix->nrow && A->ncol == (size_t) matrix->ncol, "CHOLMOD is given the shape of the matrix");
    need(A->nzmax >= (size_t) matrix->nnz, "and its number of entries");
    check(A->nzmax <= (size_t) matrix->nnz || A->nzmax <= (size_t) matrix->data->dims[0], "no more entries than the buffers hold");
    need(A->itype == CHOLMOD_LONG && A->xtype == CHOLMOD_REAL && A->dtype == CHOLMOD_DOUBLE, "64 bit indices and real doubles");
    need(A->packed && A->z == NULL && A->p != NULL && (matrix->nnz == 0 || (A->i != NULL && A->x != NULL)), "a packed matrix");
    check(A->stype < 0, "the lower triangle is used");
    check(same_matrix(A), "with the entries of the matrix");
}
cholmod_factor *cholmod_l_analyze(cholmod_sparse *A, cholmod_common *c)
{
    common_ok(c);
    matrix_ok(A);
    if (A->nrow != A->ncol || in(0, 4) == 4) { refused = 1; c->status = CHOLMOD_INVALID; return NULL; }
    cholmod_factor *L = malloc(sizeof(cholmod_factor));
    ASSUME(L != NULL);
    L->n = A->ncol; L->minor = L->n; L->xtype = CHOLMOD_PATTERN; L->is_ll = 0; L->is_super = 0; L->itype = CHOLMOD_LONG; L->dtype = CHOLMOD_DOUBLE;
    long *P = malloc((NMAX + 1) * sizeof(long));
    ASSUME(P != NULL);
    for (int k = 0; k < NMAX; k++) if (k < matrix->ncol) {
        out_perm[k] = in(0, matrix->ncol - 1);
        for (int j = 0; j < NMAX; j++) if (j < k) ASSUME(out_perm[j] != out_perm[k]);
        P[k] = out_perm[k];
    }
    L->Perm = P; L->p = L->i = L->x = L->z = L->nz = L->ColCount = L->IPerm = NULL;
    factors++;
    return L;
}
int cholmod_l_factorize(cholmod_sparse *A, cholmod_factor *L, cholmod_common *c)
{
    common_ok(c);
    if (L == NULL) { c->status = CHOLMOD_INVALID; return 0; }
    matrix_ok(A);
    out_minor = in(0, (long) L->n);
    L->minor = out_minor; L->xtype = CHOLMOD_REAL;
    L->is_ll = c->final_asis ? 0 : c->final_ll; L->is_super = c->final_asis ? (c->supernodal != CHOLMOD_SIMPLICIAL) : c->final_super;
    c->status = L->minor < L->n ? CHOLMOD_NOT_POSDEF : CHOLMOD_OK;
    check(!c->quick_return_if_not_posdef || out_minor == (long) L->n || 1, "");
    return 1;
}
int cholmod_l_change_factor(int xtype, int ll, int super, int packed, int monotonic, cholmod_factor *L, cholmod_common *c)
{
    common_ok(c);
    if (L == NULL) return 0;
    if (xtype == CHOLMOD_PATTERN) L->minor = L->n;
    L->xtype = xtype; L->is_ll = ll; L->is_super = super;
    return 1;
}
static int sparse_zero(long n) { return n == 0; }
cholmod_sparse *cholmod_l_factor_to_sparse(cholmod_factor *L, cholmod_common *c)
{
    common_ok(c);
    if (L == NULL || L->xtype == CHOLMOD_PATTERN || in(0, 4) == 4) { refused = 1; c->status = CHOLMOD_OUT_OF_MEMORY; return NULL; }
    check(L->is_ll && !L->is_super, "an L L^T factor is asked for");
    long n = L->n;
    cholmod_sparse *S = malloc(sizeof(cholmod_sparse));
    ASSUME(S != NULL);
    S->nrow = S->ncol = n; S->stype = 0; S->itype = CHOLMOD_LONG; S->xtype = CHOLMOD_REAL; S->dtype = CHOLMOD_DOUBLE; S->sorted = S->packed = 1;
    S->nz = S->z = NULL;
    long *p = malloc((n + 1) * sizeof(long));
    ASSUME(p != NULL);
    out_p[0] = p[0] = 0;
    for (int k = 0; k < NMAX; k++) if (k < n) {
        out_p[k + 1] = out_p[k] + in(1, n - k);
        p[k + 1] = out_p[k + 1];
    }
    S->nzmax = out_p[n] + in(0, 1);
    if (S->nzmax == 0) S->nzmax = 1;
    long *ii = malloc(S->nzmax * sizeof(long));
    double *xx = malloc(S->nzmax * sizeof(double));
    ASSUME(ii != NULL && xx != NULL);
    for (int k = 0; k < LNZ; k++) if (k < out_p[n]) {
        out_i[k] = in(0, n - 1); ii[k] = out_i[k];
        out_x[k] = in(-2, 5); xx[k] = (double) out_x[k];
    }
    if ((long) S->nzmax > out_p[n]) { ii[S->nzmax - 1] = 0; xx[S->nzmax - 1] = 0; }
    S->p = p; S->i = ii; S->x = xx;
    sparses++;
    L->minor = L->n; L->xtype = CHOLMOD_PATTERN;        /* L is symbolic on return */
    return S;
}
int cholmod_l_free_factor(cholmod_factor **L, cholmod_common *c)
{
    common_ok(c);
    if (L == NULL || *L == NULL) return 1;
    free((*L)->Perm);
    free(*L);
    *L = NULL;
    factors--;
    return 1;
}
int cholmod_l_free_sparse(cholmod_sparse **S, cholmod_common *c)
{
    common_ok(c);
    if (S == NULL || *S == NULL) return 1;
    free((*S)->p); free((*S)->i); free((*S)->x);
    free(*S);
    *S = NULL;
    sparses--;
    return 1;
}
static void *resize(void *p, size_t was, size_t now, size_t size)
{
    long *q = malloc(now * 8);
    ASSUME(q != NULL);
    known(size == 8, "words of 64 bits");
    for (size_t k = 0; k < LNZ + 2; k++) if (k < was && k < now) q[k] = ((long *) p)[k];
    free(p);
    return q;
}
void *cholmod_l_realloc(size_t nnew, size_t size, void *p, size_t *n, cholmod_common *c)
{
    common_ok(c);
    nnew = nnew == 0 ? 1 : nnew;
    known(nnew <= LNZ + 2 && *n <= LNZ + 2, "sizes of blocks");
    p = resize(p, *n, nnew, size);
    *n = nnew;
    return p;
}
int cholmod_l_reallocate_sparse(size_t nznew, cholmod_sparse *S, cholmod_common *c)
{
    common_ok(c);
    nznew = nznew == 0 ? 1 : nznew;
    known(nznew <= LNZ + 2, "sizes of blocks");
    S->i = resize(S->i, S->nzmax, nznew, 8);
    S->x = resize(S->x, S->nzmax, nznew, 8);
    S->nzmax = nznew;
    return 1;
}
int cholmod_l_drop(double tol, cholmod_sparse *S, cholmod_common *c)
{
    common_ok(c);
    if (tol > 0) dropped = 1;
    return 1;
}
int64_t cholmod_l_nnz(cholmod_sparse *S, cholmod_common *c) { common_ok(c); return ((long *) S->p)[S->ncol]; }
void *cholmod_l_free(size_t n, size_t size, void *p, cholmod_common *c) { common_ok(c); free(p); return NULL; }

/* ---- the code under test ---- */
#undef cholmod_l_hypot
#define printf(...) 0
#include SOURCE
#undef printf

/* ---- the harness ---- */
static PyArrayObject *given(long n, int type, int room)
{
    npy_intp d = n;
    PyArrayObject *a = malloc(sizeof(PyArrayObject));
    ASSUME(a != NULL);
    a->ob_base.ob_refcnt = 1; a->ob_base.kind = K_ARRAY; a->nd = 1; a->dims[0] = n; a->dims[1] = 0; a->type = type; a->itemsize = 8;
    a->data = malloc((n ? n : 1) * 8);
    ASSUME(a->data != NULL);
    return a;
}
static int the_matrix_is_unchanged(void)
{
    int ok = matrix->indptr->ob_base.ob_refcnt == 1 && matrix->indices->ob_base.ob_refcnt == 1 && matrix->data->ob_base.ob_refcnt == 1;
    for (int k = 0; k <= NMAX + 1; k++) if (k <= matrix->ncol && ((long *) matrix->indptr->data)[k] != in_p[k]) ok = 0;
    for (int k = 0; k < ANZ; k++) if (k < matrix->nnz && (((long *) matrix->indices->data)[k] != in_i[k] || ((double *) matrix->data->data)[k] != (double) in_x[k])) ok = 0;
    return ok;
}
static PyArrayObject *vector(PyObject *o, int type, const char *unused)
{
    need(o != NULL && o->kind == K_ARRAY && o->ob_refcnt == 1, "the results are arrays of their own");
    PyArrayObject *a = (PyArrayObject *) o;
    need(a->nd == 1 && (a->type == type || (type == NPY_INT64 && a->type == NPY_LONGLONG)), "64 bit integers and doubles");
    return a;
}

int main(void)
{
    module_fails = in(0, 1);
    PyObject *m = PyInit_cholmod();
    if (module_fails) {
        check(m == NULL, "importing fails when the module cannot be made");
        return 0;
    }
    need(m == &module_object && module != NULL && module->m_methods != NULL, "a module with functions");
    PyCFunction f = NULL;
    int k, flags = 0;
    for (k = 0; k < 4; k++) {
        if (module->m_methods[k].ml_name == NULL) break;
        if (is(module->m_methods[k].ml_name, "lchol_c")) { f = module->m_methods[k].ml_meth; flags = module->m_methods[k].ml_flags; }
    }
    need(f != NULL, "the module has lchol_c");
    known(flags == METH_VARARGS || flags == METH_O, "calling conventions");

    matrix = malloc(sizeof(MatrixObject));
    ASSUME(matrix != NULL);
    matrix->ob_base.ob_refcnt = 1; matrix->ob_base.kind = K_MATRIX;
    matrix->nrow = in(0, NMAX);
    matrix->ncol = in(0, NMAX);
    in_p[0] = 0;
    for (k = 0; k < NMAX; k++) if (k < matrix->ncol) in_p[k + 1] = in_p[k] + in(0, matrix->nrow);
    matrix->nnz = in_p[matrix->ncol];
    ASSUME(matrix->nnz <= ANZ);
    long room = matrix->nnz + in(0, 1);      /* buffers may be longer than the number of entries */
    matrix->indptr = given(matrix->ncol + 1, NPY_INT64, 0);
    matrix->indices = given(room, NPY_INT64, 0);
    matrix->data = given(room, NPY_DOUBLE, 0);
    for (k = 0; k <= NMAX; k++) if (k <= matrix->ncol) ((long *) matrix->indptr->data)[k] = in_p[k];
    for (k = 0; k < ANZ; k++) if (k < matrix->nnz) {
        in_i[k] = in(0, matrix->nrow - 1); ((long *) matrix->indices->data)[k] = in_i[k];
        in_x[k] = in(-3, 3); ((double *) matrix->data->data)[k] = (double) in_x[k];
    }
    parse_fails = in(0, 4) == 4;
    int before = live;
    if (flags == METH_O) parse_fails = 0;
    args.ob_base.ob_refcnt = 1; args.ob_base.kind = K_TUPLE; args.n = 1; args.item[0] = (PyObject *) matrix;
    PyObject *r = f(m, flags == METH_O ? (PyObject *) matrix : (PyObject *) &args);
    check(matrix->ob_base.ob_refcnt == 1, "nobody keeps the matrix");

    check(the_matrix_is_unchanged(), "the matrix keeps its entries, and nobody else keeps its buffers");
    check(factors == 0 && sparses == 0, "everything CHOLMOD made is given back to it");
    if (parse_fails || refused) {
        check(r == NULL, "no result without a factor");
        check(error != NULL, "but an exception");
        check(live == before, "and no objects left over");
        if (refused) { check(finished, "CHOLMOD is finished"); reach("matrices which CHOLMOD refuses"); }
    }
    else {
        long n = matrix->ncol, cols = out_minor < n ? out_minor : n;
        check(finished, "CHOLMOD is finished");
        need(r != NULL && r->kind == K_TUPLE && r->ob_refcnt == 1, "a tuple");
        check(error == NULL, "no exception");
        TupleObject *t = (TupleObject *) r;
        need(t->n == 5, "of five");
        check(live == before + 6, "no objects are left over");
        PyArrayObject *ind = vector(t->item[0], NPY_INT64, ""), *ptr = vector(t->item[1], NPY_INT64, ""), *dat = vector(t->item[2], NPY_DOUBLE, "");
        PyArrayObject *perm = vector(t->item[4], NPY_INT64, "");
        check(!dropped, "no entries of the factor are dropped");
        need(ptr->dims[0] == cols + 1, "one column for each which can be factorized");
        for (k = 0; k <= NMAX; k++) if (k <= cols) check(((long *) ptr->data)[k] == out_p[k], "the factor's columns");
        need(ind->dims[0] >= out_p[cols] && dat->dims[0] == ind->dims[0], "room for its entries");
        for (k = 0; k < LNZ; k++) if (k < out_p[cols]) {
            check(((long *) ind->data)[k] == out_i[k], "the factor's rows");
            check(((double *) dat->data)[k] == (double) out_x[k], "the factor's entries");
        }
        need(perm->dims[0] == n, "a permutation");
        for (k = 0; k < NMAX; k++) if (k < n) check(((long *) perm->data)[k] == out_perm[k], "the one which was used");
        check(PyLong_AsLong(t->item[3]) == (out_minor < n ? out_minor + 1 : 0), "the first column which fails, or zero");
        if (out_minor < n) reach("matrices which are not positive definite"); else reach("matrices which are positive definite");
    }
#ifdef NATIVE
    return failed ? 3 : 0;
#endif
    return 0;
}
