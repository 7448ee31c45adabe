/* Stand-in for Python.h: objects are allocated one by one and counted, so that the checker sees every
   reference taken and given back.  Only what an extension of this kind uses is modelled. */
#ifndef MODEL_PYTHON_H
#define MODEL_PYTHON_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <limits.h>

typedef ptrdiff_t Py_ssize_t;
typedef struct _typeobject { int dummy; } PyTypeObject;
typedef struct _object { Py_ssize_t ob_refcnt; int kind; } PyObject;
#define PyObject_HEAD PyObject ob_base;

#define PY_MAJOR_VERSION 3
#define PY_MINOR_VERSION 12
#define PY_VERSION_HEX 0x030c0000
#define PyMODINIT_FUNC PyObject *
#define METH_VARARGS 1
#define METH_KEYWORDS 2
#define METH_NOARGS 4
#define METH_O 8

typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef struct PyMethodDef { const char *ml_name; PyCFunction ml_meth; int ml_flags; const char *ml_doc; } PyMethodDef;
typedef struct PyModuleDef_Base { int dummy; } PyModuleDef_Base;
#define PyModuleDef_HEAD_INIT {0}
typedef struct PyModuleDef { PyModuleDef_Base m_base; const char *m_name; const char *m_doc; Py_ssize_t m_size; PyMethodDef *m_methods;
                             void *m_slots; void *m_traverse; void *m_clear; void *m_free; } PyModuleDef;

PyObject *PyModule_Create(PyModuleDef *def);
int PyArg_ParseTuple(PyObject *args, const char *format, ...);
PyObject *PyObject_GetAttrString(PyObject *o, const char *name);
int PyObject_HasAttrString(PyObject *o, const char *name);
PyObject *PyTuple_GetItem(PyObject *t, Py_ssize_t k);
Py_ssize_t PyTuple_Size(PyObject *t);
#define PyTuple_GET_ITEM PyTuple_GetItem
#define PyTuple_GET_SIZE PyTuple_Size
PyObject *PySequence_GetItem(PyObject *t, Py_ssize_t k);
long PyLong_AsLong(PyObject *o);
#define PyLong_AsLongLong PyLong_AsLong
#define PyLong_AsSsize_t PyLong_AsLong
#define PyLong_AsSize_t(o) ((size_t) PyLong_AsLong(o))
#define PyNumber_AsSsize_t(o, e) PyLong_AsLong(o)
PyObject *PyLong_FromLong(long v);
#define PyLong_FromSsize_t PyLong_FromLong
#define PyLong_FromLongLong PyLong_FromLong
PyObject *PyTuple_New(Py_ssize_t n);
int PyTuple_SetItem(PyObject *t, Py_ssize_t k, PyObject *o);
#define PyTuple_SET_ITEM PyTuple_SetItem
PyObject *PyTuple_Pack(Py_ssize_t n, ...);
PyObject *PyList_New(Py_ssize_t n);
int PyList_SetItem(PyObject *t, Py_ssize_t k, PyObject *o);
#define PyList_SET_ITEM PyList_SetItem
PyObject *Py_BuildValue(const char *format, ...);
void PyErr_SetString(PyObject *type, const char *what);
PyObject *PyErr_NoMemory(void);
PyObject *PyErr_Occurred(void);
PyObject *PyErr_Format(PyObject *type, const char *what, ...);
void PyErr_Clear(void);
extern PyObject *PyExc_ValueError, *PyExc_TypeError, *PyExc_RuntimeError, *PyExc_MemoryError, *PyExc_AttributeError, *PyExc_SystemError, *PyExc_Exception;

void model_incref(PyObject *o);
void model_decref(PyObject *o);
#define Py_INCREF(o) model_incref((PyObject *) (o))
#define Py_DECREF(o) model_decref((PyObject *) (o))
#define Py_XINCREF(o) do { if ((o) != NULL) Py_INCREF(o); } while (0)
#define Py_XDECREF(o) do { if ((o) != NULL) Py_DECREF(o); } while (0)
#define Py_CLEAR(o) do { PyObject *_t = (PyObject *) (o); if (_t != NULL) { (o) = NULL; Py_DECREF(_t); } } while (0)
#define Py_BEGIN_ALLOW_THREADS {
#define Py_END_ALLOW_THREADS }
extern PyObject model_none;
#define Py_None (&model_none)
#define Py_RETURN_NONE do { Py_INCREF(Py_None); return Py_None; } while (0)
#define PyMem_Malloc malloc
#define PyMem_Free free
#define Py_UNUSED(x) x
#endif
