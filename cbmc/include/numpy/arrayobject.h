#ifndef MODEL_NUMPY_H
#define MODEL_NUMPY_H
#include <Python.h>
typedef Py_ssize_t npy_intp;
typedef long npy_int64;
typedef long npy_long;
typedef int npy_int32;
typedef double npy_double;
typedef double npy_float64;
enum { NPY_BOOL = 0, NPY_INT32 = 5, NPY_INT = 5, NPY_INT64 = 7, NPY_LONG = 7, NPY_INTP = 7, NPY_LONGLONG = 9, NPY_FLOAT = 11, NPY_FLOAT32 = 11, NPY_DOUBLE = 12, NPY_FLOAT64 = 12 };
typedef struct PyArrayObject { PyObject ob_base; int type; int itemsize; int nd; npy_intp dims[2]; char *data; } PyArrayObject;
#define PyArray_DATA(a) ((void *) (a)->data)
#define PyArray_BYTES(a) ((char *) (a)->data)
#define PyArray_NDIM(a) ((a)->nd)
#define PyArray_DIMS(a) ((a)->dims)
#define PyArray_SHAPE(a) ((a)->dims)
#define PyArray_DIM(a, k) ((a)->dims[k])
#define PyArray_ITEMSIZE(a) ((a)->itemsize)
#define PyArray_SIZE(a) ((a)->nd == 1 ? (a)->dims[0] : (a)->dims[0] * (a)->dims[1])
#define PyArray_NBYTES(a) (PyArray_ITEMSIZE(a) * PyArray_SIZE(a))
#define PyArray_TYPE(a) ((a)->type)
#define PyArray_GETPTR1(a, i) ((void *) ((a)->data + (i) * (a)->itemsize))
PyObject *PyArray_SimpleNew(int nd, npy_intp *dims, int type);
#define PyArray_EMPTY(nd, dims, type, order) PyArray_SimpleNew(nd, dims, type)
PyObject *PyArray_ZEROS(int nd, npy_intp *dims, int type, int order);
#define import_array() do { } while (0)
#define import_array1(x) do { } while (0)
#endif
