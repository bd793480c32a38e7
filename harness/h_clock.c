//VP unit=clock_system prop=C14,C31 funcs=rcutils_system_time_now unwind=2 solver=cadical arith=cvc5int bsolver=cadical bound="none: no loops"
//VP unit=clock_steady prop=C14,C31 funcs=rcutils_steady_time_now unwind=2 solver=cadical arith=cvc5int bsolver=cadical bound="none: no loops"
//VP trust: clock_gettime fills in seconds (not beyond the year 2262, where a 64-bit nanosecond count ends) and nanoseconds below 10^9 in magnitude, or fails
#include "vp.h"
#include "vp_err.h"
static struct {int calls; bool fail; struct timespec t; clockid_t id;} g_clk;
static int vp_clock_gettime(clockid_t id, struct timespec * t)
{
  g_clk.calls++;
  g_clk.id = id;
  if (g_clk.fail) {return -1;}
  *t = g_clk.t;
  return 0;
}
#define clock_gettime vp_clock_gettime
#define clock_getres(...) vp_clock_unexpected()
#include "time_unix.c"

static void clock_common(rcutils_ret_t (*f)(rcutils_time_point_value_t *), clockid_t id)
{
  g_clk.fail = vp_bool();
  bool neg = vp_bool();
  int64_t s = (int64_t)vp_nd(neg ? UINT64_MAX : VP_LIM(9223372035u, 1000, 9223372035u));
  int64_t ns = (int64_t)vp_nd(999999999u);
  if (neg && vp_bool()) {ns = -ns;}
  VP_ASSUME(s <= 9223372035);
  g_clk.t.tv_sec = s;
  g_clk.t.tv_nsec = ns;
  rcutils_time_point_value_t v0 = (int64_t)vp_nd(UINT64_MAX), v = v0;
  bool null = vp_bool();
  rcutils_ret_t r = f(null ? NULL : &v);
  if (null) {
    VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && g_err_set && v == v0, "null output refused");
  } else if (g_clk.fail || s < 0 || (s == 0 && ns < 0)) {
    VP_CHECK(r == RCUTILS_RET_ERROR && g_err_set && v == v0, "a failing or negative clock is an error and leaves the output alone");
    VP_REACH("failing clock");
  } else {
    VP_CHECK(r == RCUTILS_RET_OK && g_clk.calls == 1 && g_clk.id == id, "the right clock is read, once");
    VP_CHECK(v >= 0, "[arith] the result is not negative");
    VP_CHECK(v == s * 1000000000 + ns, "[arith] seconds and nanoseconds combined");
    VP_REACH("time");
  }
}
void h_clock_system(void) {clock_common(rcutils_system_time_now, CLOCK_REALTIME);}
void h_clock_steady(void) {clock_common(rcutils_steady_time_now, CLOCK_MONOTONIC);}
