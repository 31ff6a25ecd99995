/* Fault injection for C30: one call of a Python callable in which the k-th allocation (or n in a row) fails.
 * All three allocator domains of CPython are wrapped; only the calling thread's allocations count. Loaded with ctypes.PyDLL. */
#include <stddef.h>

typedef void PyObject;
typedef struct {
    void *ctx;
    void *(*malloc)(void *, size_t);
    void *(*calloc)(void *, size_t, size_t);
    void *(*realloc)(void *, void *, size_t);
    void (*free)(void *, void *);
} Alloc;
extern void PyMem_GetAllocator(int, Alloc *);
extern void PyMem_SetAllocator(int, Alloc *);
extern PyObject *PyObject_Call(PyObject *, PyObject *, PyObject *);

static Alloc real[3];
static int installed;
static __thread int armed;
static __thread long seen, first, number, hit;

static int fails(void) {
    if (!armed) return 0;
    long k = seen++;
    if (k < first || (number >= 0 && k >= first + number)) return 0;
    hit++;
    return 1;
}
static void *f_malloc(void *c, size_t n) { Alloc *a = c; return fails() ? NULL : a->malloc(a->ctx, n); }
static void *f_calloc(void *c, size_t m, size_t n) { Alloc *a = c; return fails() ? NULL : a->calloc(a->ctx, m, n); }
static void *f_realloc(void *c, void *p, size_t n) { Alloc *a = c; return fails() ? NULL : a->realloc(a->ctx, p, n); }
static void f_free(void *c, void *p) { Alloc *a = c; a->free(a->ctx, p); }

void cut_install(void) {
    if (installed) return;
    installed = 1;
    for (int d = 0; d < 3; d++) {
        PyMem_GetAllocator(d, &real[d]);
        Alloc a = {&real[d], f_malloc, f_calloc, f_realloc, f_free};
        PyMem_SetAllocator(d, &a);
    }
}

/* f(*args, **kwargs) with allocations k .. k+n-1 failing (n < 0: all from k on; k < 0: none). */
PyObject *cut_call(PyObject *f, PyObject *args, PyObject *kwargs, long k, long n) {
    seen = hit = 0;
    first = k, number = k < 0 ? 0 : n;
    armed = 1;
    PyObject *r = PyObject_Call(f, args, kwargs);
    armed = 0;
    return r;
}
long cut_seen(void) { return seen; }
long cut_hit(void) { return hit; }
