// independent copies of dictionaries (arrays in a saved dictionary are views of live memory)
#pragma once
#include "utility/dictionary.h"
inline PyObject* deep_copy_fn()
{
    static PyObject* f = PyObject_GetAttrString(PyImport_ImportModule("copy"), "deepcopy");
    return f;
}
inline Dictionary deep_copy(const Dictionary& d)
{
    Python::Object o = d.ToPy();
    PyObject* r = PyObject_CallFunctionObjArgs(deep_copy_fn(), o.Get(), nullptr);
    if (!r) {
        PyErr_Print();
        throw std::runtime_error("deepcopy failed");
    }
    Dictionary c;
    c.FromPy(Python::Object(r));
    return c;
}
// textual form of any value a dictionary may hold, exact for floating point
inline std::string py_text(const Python::Object& o)
{
    static PyObject* f = nullptr;
    if (!f) {
        PyObject* m = PyDict_New();
        PyDict_SetItemString(m, "__builtins__", PyEval_GetBuiltins());
        const char* src = "import numpy as np\n"
                          "def text(x):\n"
                          "    if isinstance(x, dict): return '{' + ','.join('%r:%s' % (k, text(x[k])) for k in sorted(x)) + '}'\n"
                          "    if isinstance(x, np.ndarray): return 'array%r%s[%s]' % (x.shape, x.dtype, ','.join(repr(v) for v in x.ravel().tolist()))\n"
                          "    if isinstance(x, (list, tuple)): return '[' + ','.join(text(v) for v in x) + ']'\n"
                          "    if isinstance(x, (np.floating, np.integer, np.complexfloating)): return repr(x.item())\n"
                          "    return repr(x)\n";
        PyObject* r = PyRun_String(src, Py_file_input, m, m);
        if (!r)
            PyErr_Print();
        f = PyDict_GetItemString(m, "text");
    }
    PyObject* r = PyObject_CallFunctionObjArgs(f, o.Get(), nullptr);
    if (!r) {
        PyErr_Print();
        return "?";
    }
    const char* c = PyUnicode_AsUTF8(r);
    std::string s = c ? c : "?";
    Py_DECREF(r);
    return s;
}
inline std::string py_text(const Dictionary& d) { return py_text(d.ToPy()); }
