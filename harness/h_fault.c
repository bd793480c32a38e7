// C29: fault-injection countdown, with arbitrary interference by other threads between any two atomic steps.
//VP unit=fault_maybe prop=C29 funcs=_rcutils_fault_injection_maybe_fail loops=_rcutils_fault_injection_maybe_fail_0 unwind=4 bound="up to 4 retries of the compare-exchange"
//VP unit=fault_count prop=C29 funcs=rcutils_fault_injection_set_count,rcutils_fault_injection_get_count,rcutils_fault_injection_is_test_complete unwind=4 bound="none: no loops"
//VP unit=fault_macros prop=C29 funcs=RCUTILS_FAULT_INJECTION_MAYBE_RETURN_ERROR,RCUTILS_FAULT_INJECTION_MAYBE_FAIL unwind=6 bound="none: no loops"
//VP unit=fault_threads prop=C29 modes=bounded native=1 fuzz=1 funcs=_rcutils_fault_injection_maybe_fail unwind=8 bound="4 fault points in sequence; natively also 4 threads"
//VP trust: C11 atomic operations are indivisible and totally ordered; other threads change the count only between them
#define RCUTILS_ENABLE_FAULT_INJECTION 1
#include "vp.h"
#include <stdatomic.h>
#include "rcutils/stdatomic_helper.h"
#ifdef VP_NATIVE
#include <pthread.h>
#endif

typedef int_least64_t c64;
static struct
{
  bool on;          // other threads interfere
  c64 cur;          // the count
  c64 from, to;     // the last change made by the code under verification
  int changes;
  c64 seen;         // value returned by its last atomic operation on the count
  bool any;
  int ops;
} g_at;

#if !defined(VP_NATIVE)
static c64 g_fi_limit;
static void vp_env_step(volatile void * o)
{
  c64 * p = (c64 *)o;
  VP_CHECK(*p == g_at.cur, "the count is changed only by atomic operations");
  if (g_at.on) {
#ifdef VP_BOUNDED
    if (g_at.ops < 4)
#endif
    *p = g_at.cur = (c64)vp_nd(UINT64_MAX);
    if (g_at.ops < 100) {g_at.ops++;}
  }
}
static c64 vp_atomic_load(volatile void * o)
{
  vp_env_step(o);
  g_at.any = true;
  return g_at.seen = g_at.cur;
}
static void vp_change(volatile void * o, c64 v)
{
  g_at.from = g_at.cur;
  *(c64 *)o = g_at.cur = g_at.to = v;
  g_at.changes++;
}
static bool vp_atomic_cas(volatile void * o, c64 * expected, c64 desired, bool weak)
{
  vp_env_step(o);
  g_at.any = true;
  if (g_at.cur == *expected && !(weak && vp_bool())) {
    g_at.seen = g_at.cur;
    vp_change(o, desired);
    return true;
  }
  g_at.seen = *expected = g_at.cur;
  return false;
}
static c64 vp_atomic_rmw(volatile void * o, c64 v, bool add)
{
  vp_env_step(o);
  g_at.any = true;
  c64 was = g_at.seen = g_at.cur;
  vp_change(o, add ? (c64)((uint64_t)was + (uint64_t)v) : v);
  return was;
}
static void vp_atomic_store(volatile void * o, c64 v)
{
  vp_env_step(o);
  vp_change(o, v);
}
#undef atomic_load
#undef atomic_load_explicit
#undef atomic_store
#undef atomic_store_explicit
#undef atomic_compare_exchange_strong
#undef atomic_compare_exchange_weak
#undef atomic_compare_exchange_strong_explicit
#undef atomic_compare_exchange_weak_explicit
#undef atomic_exchange
#undef atomic_fetch_add
#undef atomic_fetch_sub
#define atomic_load(o) vp_atomic_load(o)
#define atomic_load_explicit(o, m) vp_atomic_load(o)
#define atomic_store(o, v) vp_atomic_store(o, v)
#define atomic_store_explicit(o, v, m) vp_atomic_store(o, v)
#define atomic_compare_exchange_strong(o, e, d) vp_atomic_cas(o, e, d, false)
#define atomic_compare_exchange_weak(o, e, d) vp_atomic_cas(o, e, d, true)
#define atomic_compare_exchange_strong_explicit(o, e, d, a, b) vp_atomic_cas(o, e, d, false)
#define atomic_compare_exchange_weak_explicit(o, e, d, a, b) vp_atomic_cas(o, e, d, true)
#define atomic_exchange(o, v) vp_atomic_rmw(o, v, false)
#define atomic_fetch_add(o, v) vp_atomic_rmw(o, v, true)
#define atomic_fetch_sub(o, v) vp_atomic_rmw(o, -(v), true)
#endif

#ifdef VP_PROOF
// no progress before the exchange succeeds; the expected value is the count last observed
#define VP_LOOP__rcutils_fault_injection_maybe_fail_0 \
  __CPROVER_assigns(set_atomic_success, current_count, __CPROVER_object_whole(&g_at), __CPROVER_object_whole(&g_rcutils_fault_injection_count)) \
  __CPROVER_loop_invariant(!set_atomic_success && g_at.changes == 0 && g_at.any && current_count == g_at.seen && g_at.on) \
  __CPROVER_loop_invariant((c64)g_rcutils_fault_injection_count == g_at.cur)
#endif
#include "fault_injection.c"

static void start(c64 c, bool interference)
{
#ifndef VP_NATIVE
  *(c64 *)&g_rcutils_fault_injection_count = c;
  g_at.cur = c;
  g_at.on = interference;
#else
  (void)interference;
  rcutils_fault_injection_set_count(c);
#endif
}

void h_fault_maybe(void)
{
  c64 c = (c64)vp_nd(UINT64_MAX);
  start(c, true);
  c64 r = _rcutils_fault_injection_maybe_fail();
#ifndef VP_NATIVE
  VP_CHECK(*(c64 *)&g_rcutils_fault_injection_count == g_at.cur, "the count is changed only by atomic operations");
  if (g_at.changes == 0) {
    VP_CHECK(r < 0 && g_at.any && r == g_at.seen, "without a change, the negative count just observed is returned");
    VP_REACH("off");
  } else {
    VP_CHECK(g_at.changes == 1, "one fault point takes exactly one step");
    VP_CHECK(g_at.from >= 0 && g_at.to == g_at.from - 1, "an indivisible decrement of a non-negative count");
    VP_CHECK(r == g_at.from, "and returns the value it replaced, so no two points observe the same count");
    if (r == 0) {VP_REACH("fails now");}
    if (r > 0) {VP_REACH("not yet");}
  }
#else
  VP_CHECK(r == c && rcutils_fault_injection_get_count() == (c >= 0 ? c - 1 : c), "single-threaded: returns the count and decrements it");
#endif
}

void h_fault_count(void)
{
  // initial state of the library
#ifndef VP_NATIVE
  g_at.cur = -1;
#endif
  VP_CHECK(rcutils_fault_injection_get_count() == -1, "fault injection is off at start");
  c64 c0 = (c64)vp_nd(UINT64_MAX), c = (c64)vp_nd(UINT64_MAX);
  start(c0, false);
  rcutils_fault_injection_set_count(c);
  VP_CHECK(rcutils_fault_injection_get_count() == c, "the count set is the count read");
  VP_CHECK(rcutils_fault_injection_is_test_complete() == (c > -1), "complete exactly when no fault was left to inject");
  VP_REACH("end");
}

static int f_ret(int * after) {RCUTILS_FAULT_INJECTION_MAYBE_RETURN_ERROR(7); ++*after; return 3;}
static void f_fail(int * code, int * after) {RCUTILS_FAULT_INJECTION_MAYBE_FAIL(++*code); ++*after;}
#define printf(...) ((void)0)
void h_fault_macros(void)
{
  c64 c = (c64)vp_nd(UINT64_MAX);
  start(c, false);
  int after = 0, code = 0;
  if (vp_bool()) {
    int r = f_ret(&after);
    VP_CHECK(r == (c == 0 ? 7 : 3) && after == (c != 0), "the error is returned exactly when the count was 0");
  } else {
    f_fail(&code, &after);
    VP_CHECK(code == (c == 0) && after == 1, "the failure code runs exactly when the count was 0");
  }
  VP_CHECK(rcutils_fault_injection_get_count() == (c >= 0 ? c - 1 : c), "one step of the count");
  VP_REACH("end");
}

#ifdef VP_NATIVE
enum {THREADS = 4, CALLS = 3000};
static c64 g_got[THREADS][CALLS];
static void * worker(void * a)
{
  c64 * g = a;
  for (int i = 0; i < CALLS; ++i) {g[i] = _rcutils_fault_injection_maybe_fail();}
  return NULL;
}
#endif

void h_fault_threads(void)
{
  c64 n = (c64)vp_nd(VP_LIM(3, 3, 3));
  if (vp_bool()) {n = -1 - n;}
  start(n, false);
  for (c64 i = 0; i < 4; ++i) {
    c64 r = _rcutils_fault_injection_maybe_fail();
    VP_CHECK((r == 0) == (i == n), "exactly the (n+1)-th fault point fails");
  }
  VP_CHECK(rcutils_fault_injection_get_count() == (n >= 4 ? n - 4 : n >= 0 ? -1 : n), "terminal value");
  rcutils_fault_injection_set_count(1);
  VP_CHECK(_rcutils_fault_injection_maybe_fail() == 1 && _rcutils_fault_injection_maybe_fail() == 0 && _rcutils_fault_injection_maybe_fail() < 0, "set again");
#ifdef VP_NATIVE
  static unsigned char seen[THREADS * CALLS];
  c64 big = (c64)vp_nd(THREADS * CALLS - 1);
  rcutils_fault_injection_set_count(big);
  pthread_t t[THREADS];
  for (int i = 0; i < THREADS; ++i) {if (pthread_create(&t[i], NULL, worker, g_got[i])) {vp_discard_();}}
  for (int i = 0; i < THREADS; ++i) {pthread_join(t[i], NULL);}
  for (int i = 0; i < THREADS; ++i) {
    for (int k = 0; k < CALLS; ++k) {
      c64 v = g_got[i][k];
      VP_CHECK(v == -1 || (v >= 0 && v <= big), "values observed");
      if (v >= 0) {
        VP_CHECK(!seen[v], "no two threads observe the same count");
        seen[v] = 1;
      }
    }
  }
  for (c64 v = 0; v <= big; ++v) {VP_CHECK(seen[v], "no decrement is lost");}
#endif
  VP_REACH("end");
}
