// Makes allocations fail on demand.  run(f, args, kwargs, start, stop) calls f and lets the allocations number start <= k < stop of that call
// fail: those of CPython's object and mem domains and, through oom_preload.cpp, every operator new and the aligned_alloc,
// malloc ... of the library under test.  Returns (kind, value, number of allocations asked for, number that failed).
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#define EXPORT __attribute__((visibility("default")))
extern "C" {
bool pfu_oom_fails();
void pfu_oom_enter();
void pfu_oom_leave();
bool pfu_oom_find();
void pfu_oom_arm(long, long);
void pfu_oom_disarm(long *, long *);
long pfu_oom_live();
}

// ---- CPython's allocators.
static PyMemAllocatorEx orig[2];
static void *h_malloc(void *ctx, size_t n) {
    PyMemAllocatorEx *o = (PyMemAllocatorEx *) ctx;
    if (pfu_oom_fails()) return nullptr;
    pfu_oom_enter();
    void *p = o->malloc(o->ctx, n);
    pfu_oom_leave();
    return p;
}
static void *h_calloc(void *ctx, size_t m, size_t n) {
    PyMemAllocatorEx *o = (PyMemAllocatorEx *) ctx;
    if (pfu_oom_fails()) return nullptr;
    pfu_oom_enter();
    void *p = o->calloc(o->ctx, m, n);
    pfu_oom_leave();
    return p;
}
static void *h_realloc(void *ctx, void *q, size_t n) {
    PyMemAllocatorEx *o = (PyMemAllocatorEx *) ctx;
    if (pfu_oom_fails()) return nullptr;
    pfu_oom_enter();
    void *p = o->realloc(o->ctx, q, n);
    pfu_oom_leave();
    return p;
}
static void h_free(void *ctx, void *q) {
    PyMemAllocatorEx *o = (PyMemAllocatorEx *) ctx;
    o->free(o->ctx, q);
}

static PyObject *oom_install(PyObject *, PyObject *) {
    PyMemAllocatorDomain d[2] = {PYMEM_DOMAIN_MEM, PYMEM_DOMAIN_OBJ};
    for (int i = 0; i < 2; i++) {
        PyMem_GetAllocator(d[i], &orig[i]);
        PyMemAllocatorEx a = {&orig[i], h_malloc, h_calloc, h_realloc, h_free};
        PyMem_SetAllocator(d[i], &a);
    }
    return PyBool_FromLong(pfu_oom_find());
}

static PyObject *oom_run(PyObject *, PyObject *args) {
    PyObject *f, *a, *kw;
    long start, stop;
    if (!PyArg_ParseTuple(args, "OO!O!ll", &f, &PyTuple_Type, &a, &PyDict_Type, &kw, &start, &stop)) return nullptr;
    long asked, failed;
    pfu_oom_arm(start, stop);
    PyObject *r = PyObject_Call(f, a, kw);
    pfu_oom_disarm(&asked, &failed);
    const char *kind = "ok";
    if (r == nullptr) {
        kind = "exc";
        r = PyErr_GetRaisedException();
        if (r == nullptr) { kind = "nothing"; r = Py_NewRef(Py_None); }
    } else if (PyErr_Occurred()) {
        kind = "both";
        PyErr_Clear();
    }
    return Py_BuildValue("sNll", kind, r, asked, failed);
}

static PyObject *oom_live(PyObject *, PyObject *) { return PyLong_FromLong(pfu_oom_live()); }

static PyMethodDef methods[] = {
    {"install", oom_install, METH_NOARGS, nullptr},
    {"run", oom_run, METH_VARARGS, nullptr},
    {"live", oom_live, METH_NOARGS, nullptr},
    {nullptr, nullptr, 0, nullptr}};
static PyModuleDef module = {PyModuleDef_HEAD_INIT, "oom", nullptr, -1, methods, nullptr, nullptr, nullptr, nullptr};
extern "C" EXPORT PyObject *PyInit_oom() { return PyModule_Create(&module); }
