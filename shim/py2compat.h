// Lets the Python-2 C API glue of /repo compile and run against Python 3.
// Force-included (-include) in verification builds only.
#ifndef VERIF_PY2COMPAT_H
#define VERIF_PY2COMPAT_H
#ifdef __cplusplus
#include <Python.h>
// numpy's int64 was a subclass of Python 2's int
#include <string.h>
static inline int VerifPyIntCheck(PyObject *o) { return PyLong_Check(o) || strcmp(Py_TYPE(o)->tp_name, "numpy.int64") == 0; }
#define PyInt_Check VerifPyIntCheck
#define PyInt_FromLong PyLong_FromLong
#define PyInt_AsLong PyLong_AsLong
#define PyString_FromString PyUnicode_FromString
#define PyString_Check PyUnicode_Check
static inline const char *VerifPyStringAsString(PyObject *o)
{
    if (PyBytes_Check(o))
        return PyBytes_AsString(o);
    return PyUnicode_AsUTF8(o);
}
#define PyString_AsString(o) ((char *)VerifPyStringAsString(o))
#endif
#endif
