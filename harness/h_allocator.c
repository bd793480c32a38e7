//VP unit=allocator_valid prop=C28,C31 funcs=rcutils_allocator_is_valid,rcutils_get_zero_initialized_allocator
//VP unit=reallocf prop=C28,C30 funcs=rcutils_reallocf unwind=8 bound="blocks up to 6 bytes"
//VP unit=default_allocator prop=C28 funcs=rcutils_get_default_allocator,__default_allocate,__default_deallocate,__default_reallocate,__default_zero_allocate unwind=8 bound="blocks up to 6 bytes"
//VP trust: malloc, calloc, realloc and free by their C library contracts
#define VP_REAL_ALLOCATOR
#include "vp.h"
#include "vp_str.h"
#include "vp_alloc.h"
#include "vp_err.h"
#ifdef VP_PROOF
size_t g_re_w;
#endif
// the C heap, as called by the default allocator
#undef malloc
#undef calloc
#undef realloc
#undef free
static struct {unsigned m, c, r, f; size_t a, b; void * p; void * ret;} g_heap;
static void * vp_h_malloc(size_t n) {g_heap.m++; g_heap.a = n; return g_heap.ret;}
static void * vp_h_calloc(size_t k, size_t n) {g_heap.c++; g_heap.a = k; g_heap.b = n; return g_heap.ret;}
static void * vp_h_realloc(void * p, size_t n) {g_heap.r++; g_heap.p = p; g_heap.a = n; return g_heap.ret;}
static void vp_h_free(void * p) {g_heap.f++; g_heap.p = p;}
#define malloc vp_h_malloc
#define calloc vp_h_calloc
#define realloc vp_h_realloc
#define free vp_h_free
#include "allocator.c"
#undef malloc
#undef calloc
#undef realloc
#undef free

void h_allocator_valid(void)
{
  rcutils_allocator_t a = vp_allocator(false);
  bool b0 = vp_bool(), b1 = vp_bool(), b2 = vp_bool(), b3 = vp_bool(), b4 = vp_bool();
  if (b0) {a.allocate = NULL;}
  if (b1) {a.deallocate = NULL;}
  if (b2) {a.reallocate = NULL;}
  if (b3) {a.zero_allocate = NULL;}
  if (b4) {a.state = NULL;}
  bool r = rcutils_allocator_is_valid(&a);
  VP_CHECK(r == !(b0 || b1 || b2 || b3), "valid exactly when all four functions are set");
  VP_CHECK(!rcutils_allocator_is_valid(NULL), "null allocator is invalid");
  rcutils_allocator_t z = rcutils_get_zero_initialized_allocator();
  VP_CHECK(z.allocate == NULL && z.deallocate == NULL && z.reallocate == NULL && z.zero_allocate == NULL &&
    z.state == NULL, "zero initialized allocator is all null");
  if (r) {VP_REACH("valid");}
}

void h_reallocf(void)
{
  g_w = (size_t)vp_nd(VP_LIM(UINT64_MAX, 6, 30));
#ifdef VP_PROOF
  g_re_w = g_w;
#endif
  size_t n = (size_t)vp_nd(VP_LIM(VP_MAXOBJ, 6, 30)), m = (size_t)vp_nd(VP_LIM(UINT64_MAX, 6, 30));
  VP_ASSUME(m > 0);
  rcutils_allocator_t a = vp_allocator(false);
  char * p = NULL;
  char old = 0;
  if (vp_bool()) {
    p = a.allocate(n, a.state);
    if (!p) {return;}
#ifndef VP_PROOF
    for (size_t i = 0; i < n; ++i) {p[i] = vp_char();}
#endif
    if (g_w < n) {old = p[g_w];}
  }
  size_t live0 = g_al.live, null0 = g_al.free_null;
  bool bad = vp_bool();
  if (bad) {a.zero_allocate = NULL;}
  g_al.may_fail = vp_bool();
  char * q = rcutils_reallocf(p, m, vp_bool() && bad ? NULL : &a);
  if (bad) {
    VP_CHECK(q == NULL && g_al.live == live0, "invalid allocator: null, block untouched");
    VP_CHECK(VP_IMP(p && g_w < n, p[g_w] == old), "invalid allocator: contents untouched");
  } else if (q == NULL) {
    VP_CHECK(g_al.failed, "null only when the reallocation failed");
    VP_CHECK(g_al.live == 0, "original block freed exactly once");
    if (p) {VP_REACH("freed");}
  } else {
    VP_REACH("resized");
    VP_CHECK(g_al.live == 1, "one live block after success");
    VP_CHECK(VP_IMP(p && g_w < n && g_w < m, q[g_w] == old), "contents kept up to the smaller size");
    a.deallocate(q, a.state);
  }
  (void)null0;
}

void h_default_allocator(void)
{
  char blk, res;
  rcutils_allocator_t a = rcutils_get_default_allocator();
  VP_CHECK(rcutils_allocator_is_valid(&a), "default allocator is valid");
  VP_CHECK(a.state == NULL, "default allocator has no state");
  g_heap.ret = vp_bool() ? &res : NULL;
  size_t n = (size_t)vp_nd(UINT64_MAX), k = (size_t)vp_nd(UINT64_MAX);
  void * st = vp_bool() ? &blk : NULL;
  VP_CHECK(a.allocate(n, st) == g_heap.ret && g_heap.m == 1 && g_heap.a == n &&
    g_heap.c + g_heap.r + g_heap.f == 0, "allocate is malloc");
  VP_CHECK(a.zero_allocate(k, n, st) == g_heap.ret && g_heap.c == 1 && g_heap.a == k && g_heap.b == n &&
    g_heap.m == 1 && g_heap.r + g_heap.f == 0, "zero_allocate is calloc");
  VP_CHECK(a.reallocate(&blk, k, st) == g_heap.ret && g_heap.r == 1 && g_heap.p == &blk && g_heap.a == k &&
    g_heap.m == 1 && g_heap.c == 1 && g_heap.f == 0, "reallocate is realloc");
  g_heap.p = NULL;
  a.deallocate(&blk, st);
  VP_CHECK(g_heap.f == 1 && g_heap.p == &blk && g_heap.m == 1 && g_heap.c == 1 && g_heap.r == 1, "deallocate is free");
  VP_REACH("all called");
}
