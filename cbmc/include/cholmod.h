/* Stand-in for SuiteSparse's cholmod.h: the same fields, and functions whose contracts the checker knows. */
#ifndef MODEL_CHOLMOD_H
#define MODEL_CHOLMOD_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#define CHOLMOD_VER_CODE(main, sub) ((main) * 1000 + (sub))
#define CHOLMOD_VERSION CHOLMOD_VER_CODE(5, 2)
#define CHOLMOD_INT 0
#define CHOLMOD_LONG 2
#define CHOLMOD_PATTERN 0
#define CHOLMOD_REAL 1
#define CHOLMOD_COMPLEX 2
#define CHOLMOD_ZOMPLEX 3
#define CHOLMOD_DOUBLE 0
#define CHOLMOD_SINGLE 4
#define CHOLMOD_NATURAL 0
#define CHOLMOD_GIVEN 1
#define CHOLMOD_AMD 2
#define CHOLMOD_METIS 3
#define CHOLMOD_OK 0
#define CHOLMOD_NOT_INSTALLED (-1)
#define CHOLMOD_OUT_OF_MEMORY (-2)
#define CHOLMOD_INVALID (-4)
#define CHOLMOD_NOT_POSDEF 1
#define CHOLMOD_SIMPLICIAL 0
#define CHOLMOD_AUTO 1
#define CHOLMOD_SUPERNODAL 2
#define SuiteSparse_long long

typedef struct { int ordering; } cholmod_method;
typedef struct cholmod_common_struct {
    double dbound, grow0, grow1, metis_memory, metis_dswitch;
    size_t grow2, maxrank, metis_nswitch;
    int supernodal, final_asis, final_super, final_ll, final_pack, final_monotonic, final_resymbol;
    int prefer_zomplex, prefer_upper, quick_return_if_not_posdef, prefer_binary, print, precise, try_catch;
    void (*error_handler)(int status, const char *file, int line, const char *message);
    int nmethods, current, selected, postorder, status, itype, dtype, default_nesdis;
    cholmod_method method[10];
    int started;
} cholmod_common;
typedef struct cholmod_sparse_struct { size_t nrow, ncol, nzmax; void *p, *i, *nz, *x, *z; int stype, itype, xtype, dtype, sorted, packed; } cholmod_sparse;
typedef struct cholmod_factor_struct { size_t n, minor; void *Perm; void *ColCount; void *IPerm; size_t nzmax; void *p, *i, *x, *z, *nz;
                                       int ordering, is_ll, is_super, is_monotonic, itype, xtype, dtype; } cholmod_factor;

int cholmod_l_start(cholmod_common *);
int cholmod_l_finish(cholmod_common *);
cholmod_factor *cholmod_l_analyze(cholmod_sparse *, cholmod_common *);
int cholmod_l_factorize(cholmod_sparse *, cholmod_factor *, cholmod_common *);
cholmod_sparse *cholmod_l_factor_to_sparse(cholmod_factor *, cholmod_common *);
int cholmod_l_change_factor(int xtype, int ll, int super, int packed, int monotonic, cholmod_factor *, cholmod_common *);
int cholmod_l_free_factor(cholmod_factor **, cholmod_common *);
int cholmod_l_free_sparse(cholmod_sparse **, cholmod_common *);
void *cholmod_l_realloc(size_t nnew, size_t size, void *p, size_t *n, cholmod_common *);
int cholmod_l_reallocate_sparse(size_t nznew, cholmod_sparse *, cholmod_common *);
int cholmod_l_drop(double tol, cholmod_sparse *, cholmod_common *);
int64_t cholmod_l_nnz(cholmod_sparse *, cholmod_common *);
void *cholmod_l_free(size_t n, size_t size, void *p, cholmod_common *);
#endif
