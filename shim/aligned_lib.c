/* the package's aligned storage functions, callable */
#include "align_shim.h"
#include "aligned_malloc.h"
void *x_malloc(size_t n) { return PyArray_malloc_aligned(n); }
void *x_calloc(size_t n, size_t s) { return PyArray_calloc_aligned(n, s); }
void *x_realloc(void *p, size_t n) { return PyArray_realloc_aligned(p, n); }
void x_free(void *p) { PyArray_free_aligned(p); }
