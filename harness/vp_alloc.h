// Allocator contract stub: hands out fresh objects of exactly the requested size, may fail at any
// call, checks that the state pointer is passed through, counts live allocations, and frees for
// real so that use-after-free and double free are caught by the verifier / ASan.
#ifndef VP_ALLOC_H_
#define VP_ALLOC_H_
#include "vp.h"
#include "rcutils/allocator.h"

static struct
{
  size_t live;        // allocations handed out and not yet returned
  size_t calls;       // allocation requests
  bool may_fail;      // the harness allows failures
  bool failed;        // some request failed
  bool huge;          // some request was refused because it was larger than any object
  size_t free_null;   // deallocate(NULL)
} g_al;
static int g_al_state;

#ifdef VP_NATIVE
#define VP_ALLOC_LIMIT ((size_t)1 << 24)
#else
#define VP_ALLOC_LIMIT ((size_t)VP_MAXOBJ)
#endif

static bool vp_al_refuse(size_t n)
{
  g_al.calls++;
  if (n > VP_ALLOC_LIMIT) {
    g_al.huge = true;
    g_al.failed = true;
    return true;
  }
  if (g_al.may_fail && vp_bool()) {
    g_al.failed = true;
    return true;
  }
  return false;
}

static void * vp_allocate(size_t n, void * state)
{
  VP_CHECK(state == &g_al_state, "allocator called with its own state pointer");
  if (vp_al_refuse(n)) {return NULL;}
  void * p = (malloc)(n);
  VP_ASSUME(p != NULL);
  g_al.live++;
  return p;
}

static void vp_deallocate(void * p, void * state)
{
  VP_CHECK(state == &g_al_state, "allocator called with its own state pointer");
  if (p == NULL) {
    g_al.free_null++;
    return;
  }
  VP_CHECK(g_al.live > 0, "deallocate of something never allocated");
  g_al.live--;
  (free)(p);
}

#ifdef VP_PROOF
extern size_t g_re_w;   // witness offset preserved by reallocate
#endif

static void * vp_reallocate(void * p, size_t n, void * state)
{
  VP_CHECK(state == &g_al_state, "allocator called with its own state pointer");
#ifdef VP_CUT_REALLOC
  n = VP_CUT_REALLOC(n);
#endif
  if (n == 0 && p != NULL) {
    // realloc(p, 0) may free the block and return null; it never fails otherwise
    g_al.calls++;
    if (g_al.may_fail && vp_bool()) {
      vp_deallocate(p, state);
      return NULL;
    }
  } else if (vp_al_refuse(n)) {return NULL;}
#if defined(VP_NATIVE)
  void * q = (realloc)(p, n ? n : 1);
  VP_ASSUME(q != NULL);
#else
  char * q = (char *)(malloc)(n);
  VP_ASSUME(q != NULL);
  if (p != NULL) {
    size_t old = __CPROVER_OBJECT_SIZE(p);
    size_t m = old < n ? old : n;
#ifdef VP_PROOF
    if (g_re_w < m) {q[g_re_w] = ((char *)p)[g_re_w];}
#else
    for (size_t i = 0; i < m; ++i) {q[i] = ((char *)p)[i];}
#endif
    (free)(p);
  }
#endif
  if (p == NULL) {g_al.live++;}
  return q;
}

static void * vp_zero_allocate(size_t k, size_t n, void * state)
{
  VP_CHECK(state == &g_al_state, "allocator called with its own state pointer");
  if (n != 0 && k > SIZE_MAX / n) {
    g_al.calls++;
    g_al.failed = g_al.huge = true;
    return NULL;
  }
  if (vp_al_refuse(k * n)) {return NULL;}
  void * p = (calloc)(1, k * n);
  VP_ASSUME(p != NULL);
  g_al.live++;
  return p;
}

static rcutils_allocator_t vp_allocator(bool may_fail)
{
  g_al.may_fail = may_fail;
  rcutils_allocator_t a;
  a.allocate = vp_allocate;
  a.deallocate = vp_deallocate;
  a.reallocate = vp_reallocate;
  a.zero_allocate = vp_zero_allocate;
  a.state = &g_al_state;
  return a;
}

// Allocator helpers of allocator.c, by contract (allocator.c is verified on its own).
#ifndef VP_REAL_ALLOCATOR
static bool g_default_alloc_ok;  // the code may use the default allocator
rcutils_allocator_t rcutils_get_default_allocator(void)
{
  VP_CHECK(g_default_alloc_ok, "the default allocator is not used behind the caller's back");
  return vp_allocator(g_al.may_fail);
}
rcutils_allocator_t rcutils_get_zero_initialized_allocator(void)
{
  rcutils_allocator_t a = {0};
  return a;
}
bool rcutils_allocator_is_valid(const rcutils_allocator_t * a)
{
  return NULL != a && NULL != a->allocate && NULL != a->deallocate && NULL != a->zero_allocate &&
         NULL != a->reallocate;
}
void * rcutils_reallocf(void * p, size_t n, rcutils_allocator_t * a)
{
  if (!rcutils_allocator_is_valid(a)) {return NULL;}
  void * q = a->reallocate(p, n, a->state);
  if (q == NULL) {a->deallocate(p, a->state);}
  return q;
}
#endif

// Direct use of the C heap by library code is not allowed: everything goes through the allocator.
static inline void * vp_raw_heap(void)
{
  VP_CHECK(0, "memory is obtained only from the supplied allocator");
  return NULL;
}
#define malloc(n) vp_raw_heap()
#define calloc(a, b) vp_raw_heap()
#define realloc(a, b) vp_raw_heap()
#define free(p) ((void)(p), (void)vp_raw_heap())
#endif  // VP_ALLOC_H_
