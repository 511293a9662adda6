#pragma once
#include <Python.h>
extern "C" {
typedef long npy_intp; enum { NPY_INT = 5, NPY_FLOAT = 11, NPY_DOUBLE = 12 };
struct PyArray_Descr { int type_num; char type; char kind; int elsize; };
struct PyArrayObject { PyObject ob; };
void* PyArray_DATA(PyArrayObject*); PyArray_Descr* PyArray_DESCR(PyArrayObject*); npy_intp PyArray_DIM(PyArrayObject*,int); int PyArray_NDIM(PyArrayObject*);
PyObject* PyArray_SimpleNew(int,npy_intp*,int); PyObject* PyArray_SimpleNewFromData(int,npy_intp*,int,void*);
int import_array1_stub(); int _import_array();
}
#define import_array() import_array1_stub()
