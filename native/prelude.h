/* Included before the monitored source: counts its living allocations */
#ifndef NATIVE_PRELUDE_H
#define NATIVE_PRELUDE_H
#include <Python.h>

extern long native_live;

static inline void *native_malloc(size_t n) {
    void *p = PyMem_Malloc(n);
    if (p)
        native_live++;
    return p;
}

static inline void *native_calloc(size_t n, size_t m) {
    void *p = PyMem_Calloc(n, m);
    if (p)
        native_live++;
    return p;
}

static inline void native_free(void *p) {
    if (p)
        native_live--;
    PyMem_Free(p);
}

#undef PyMem_New
#undef PyMem_Del
#define PyMem_New(type, n) ((type *)native_malloc((n) * sizeof(type)))
#define PyMem_Del native_free
#define PyMem_Malloc native_malloc
#define PyMem_Calloc native_calloc
#define PyMem_Free native_free

#endif
