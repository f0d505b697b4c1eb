// Blocks that the linked objects take from the C library directly (linked
// with --wrap=malloc,...), not through the allocator installed in vl: the
// library may do so for its global state and in parallel regions only, and
// has to return them as well.
#include <cstdlib>
extern "C" {
long vt_raw_live = 0;
extern __thread int vt_in_allocator;
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
static void add(long k) { if (!vt_in_allocator) __atomic_add_fetch(&vt_raw_live, k, __ATOMIC_RELAXED); }
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) add(1); return p; }
void *__wrap_calloc(size_t n, size_t k) { void *p = __real_calloc(n, k); if (p) add(1); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (p && !q) add(1); return p; }
void __wrap_free(void *p) { if (p) add(-1); __real_free(p); }
}
