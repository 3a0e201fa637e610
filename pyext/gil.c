/* Linked into the extension with --wrap: every place where the code under test
 * gives up or takes back the interpreter lock is a scheduling point. */
typedef struct _object PyObject;
typedef struct _ts PyThreadState;
extern PyThreadState *__real_PyEval_SaveThread(void);
extern void __real_PyEval_RestoreThread(PyThreadState *);
extern PyObject *PySys_GetObject(const char *);
extern PyObject *PyObject_CallObject(PyObject *, PyObject *);
extern void PyErr_Clear(void);
extern void Py_DecRef(PyObject *);
static void point(void) {
    PyObject *cb = PySys_GetObject("_sim_gil_point");
    if (cb) {
        PyObject *r = PyObject_CallObject(cb, 0);
        if (r) Py_DecRef(r);
        else PyErr_Clear();
    }
}
PyThreadState *__wrap_PyEval_SaveThread(void) {
    point();
    return __real_PyEval_SaveThread();
}
void __wrap_PyEval_RestoreThread(PyThreadState *t) {
    __real_PyEval_RestoreThread(t);
    point();
}
