#pragma once
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cassert>
extern "C" {
struct _object { long ob_refcnt; }; typedef struct _object PyObject;
typedef PyObject* (*PyCFunction)(PyObject*,PyObject*);
struct PyMethodDef { const char* ml_name; PyCFunction ml_meth; int ml_flags; const char* ml_doc; };
#define METH_VARARGS 1
#define METH_NOARGS 4
int PyArg_ParseTuple(PyObject*,const char*,...); int PyCallable_Check(PyObject*); void PyErr_Clear(); PyObject* PyErr_Occurred(); void PyErr_Print();
PyObject* PyImport_ImportModule(const char*); PyObject* PyImport_ReloadModule(PyObject*); PyObject* PyObject_CallObject(PyObject*,PyObject*);
PyObject* PyObject_GetAttrString(PyObject*,const char*); int PyRun_SimpleString(const char*); PyObject* Py_BuildValue(const char*,...);
void Py_Finalize(); void Py_Initialize(); void Py_SetProgramName(char*); PyObject* Py_InitModule(const char*,PyMethodDef*);
void Py_XDECREF(PyObject*); void Py_DECREF(PyObject*); void Py_INCREF(PyObject*); void Py_XINCREF(PyObject*);
}
