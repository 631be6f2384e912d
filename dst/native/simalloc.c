/* Allocation seam: allocator hooks that fail chosen allocations while a call is being made.
 *
 * call(start, stop, func, args): calls func(*args) with the allocations number start..stop-1 (counted from the
 * beginning of the call) failing; returns (ok, result or exception, allocations, failures).
 * outstanding(): blocks allocated and not freed through the hooked domains since install().
 */
#define PY_SSIZE_T_CLEAN
#include <Python.h>

static PyMemAllocatorEx orig[2];
static int installed = 0, armed = 0;
static long long count, failed, from, to, live;

static int fails(void) {
    if(!armed) return 0;
    long long n = count++;
    if(n >= from && n < to) {
        failed++;
        return 1;
    }
    return 0;
}

static void *h_malloc(void *ctx, size_t n) {
    if(fails()) return NULL;
    void *p = ((PyMemAllocatorEx*)ctx)->malloc(((PyMemAllocatorEx*)ctx)->ctx, n);
    if(p) live++;
    return p;
}

static void *h_calloc(void *ctx, size_t n, size_t m) {
    if(fails()) return NULL;
    void *p = ((PyMemAllocatorEx*)ctx)->calloc(((PyMemAllocatorEx*)ctx)->ctx, n, m);
    if(p) live++;
    return p;
}

static void *h_realloc(void *ctx, void *old, size_t n) {
    if(fails()) return NULL;
    void *p = ((PyMemAllocatorEx*)ctx)->realloc(((PyMemAllocatorEx*)ctx)->ctx, old, n);
    if(p && !old) live++;
    return p;
}

static void h_free(void *ctx, void *p) {
    if(p) live--;
    ((PyMemAllocatorEx*)ctx)->free(((PyMemAllocatorEx*)ctx)->ctx, p);
}

static PyObject *install(PyObject *self, PyObject *unused) {
    if(!installed) {
        PyMemAllocatorDomain d[2] = {PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ};
        int i;
        for(i = 0; i < 2; i++) {
            PyMemAllocatorEx a;
            PyMem_GetAllocator(d[i], &orig[i]);
            a.ctx = &orig[i];
            a.malloc = h_malloc;
            a.calloc = h_calloc;
            a.realloc = h_realloc;
            a.free = h_free;
            PyMem_SetAllocator(d[i], &a);
        }
        installed = 1;
    }
    Py_RETURN_NONE;
}

static PyObject *call(PyObject *self, PyObject *a) {
    PyObject *func, *args;
    long long start, stop;
    if(!PyArg_ParseTuple(a, "LLOO!", &start, &stop, &func, &PyTuple_Type, &args)) return NULL;
    count = failed = 0;
    from = start;
    to = stop;
    armed = 1;
    PyObject *r = PyObject_Call(func, args, NULL);
    armed = 0;
    long long c = count, f = failed;
    if(r == NULL) {
        PyObject *e = PyErr_GetRaisedException();
        if(e == NULL) {
            PyErr_SetString(PyExc_SystemError, "the call failed without an exception");
            return NULL;
        }
        return Py_BuildValue("(iNLL)", 0, e, c, f);
    }
    if(PyErr_Occurred()) {
        /* a result together with an exception */
        PyObject *e = PyErr_GetRaisedException();
        return Py_BuildValue("(iNLLN)", 2, r, c, f, e);
    }
    return Py_BuildValue("(iNLL)", 1, r, c, f);
}

static PyObject *outstanding(PyObject *self, PyObject *unused) {
    return PyLong_FromLongLong(live);
}

static PyMethodDef methods[] = {
    {"install", install, METH_NOARGS, ""},
    {"call", call, METH_VARARGS, ""},
    {"outstanding", outstanding, METH_NOARGS, ""},
    {NULL, NULL, 0, NULL}
};

static struct PyModuleDef def = {PyModuleDef_HEAD_INIT, "simalloc", NULL, -1, methods};

PyMODINIT_FUNC PyInit_simalloc(void) {
    return PyModule_Create(&def);
}
