// C21: conditional logging macros, every severity and condition, with and without a name.
//VP unit=macro_plain prop=C21 funcs=RCUTILS_LOG_<severity>,RCUTILS_LOG_<severity>_NAMED,RCUTILS_LOG_COND_NAMED dfcc=0 unwind=5 bound="3 calls"
//VP unit=macro_once prop=C21 funcs=RCUTILS_LOG_<severity>_ONCE,RCUTILS_LOG_<severity>_ONCE_NAMED dfcc=0 unwind=5 bound="3 calls"
//VP unit=macro_skipfirst prop=C21 funcs=RCUTILS_LOG_<severity>_SKIPFIRST,RCUTILS_LOG_<severity>_SKIPFIRST_NAMED dfcc=0 unwind=5 bound="3 calls"
//VP unit=macro_expression prop=C21 funcs=RCUTILS_LOG_<severity>_EXPRESSION,RCUTILS_LOG_<severity>_EXPRESSION_NAMED dfcc=0 unwind=5 bound="3 calls"
//VP unit=macro_function prop=C21 funcs=RCUTILS_LOG_<severity>_FUNCTION,RCUTILS_LOG_<severity>_FUNCTION_NAMED dfcc=0 unwind=5 bound="3 calls"
//VP unit=macro_throttle prop=C21 funcs=RCUTILS_LOG_<severity>_THROTTLE,RCUTILS_LOG_<severity>_THROTTLE_NAMED dfcc=0 unwind=5 bound="3 calls"
//VP unit=macro_skipfirst_throttle prop=C21 funcs=RCUTILS_LOG_<severity>_SKIPFIRST_THROTTLE,RCUTILS_LOG_<severity>_SKIPFIRST_THROTTLE_NAMED dfcc=0 unwind=5 bound="3 calls"
//VP unit=macro_min prop=C21 defs="-DRCUTILS_LOG_MIN_SEVERITY=3 -DVP_MIN=3" funcs=RCUTILS_LOG_MIN_SEVERITY dfcc=0 unwind=5 bound="1 call"
//VP unit=macro_none prop=C21 defs="-DRCUTILS_LOG_MIN_SEVERITY=RCUTILS_LOG_MIN_SEVERITY_NONE -DVP_MIN=5" funcs=RCUTILS_LOG_MIN_SEVERITY_NONE dfcc=0 unwind=5 bound="1 call"
//VP trust: static variables of a macro are zero-initialised as written and change only in the statements of that macro (one thread at a time)
#include "vp.h"
#include "vp_err.h"

static struct
{
  int sev;
  const char * name;
  bool en;
  int asked, fired, errlog, evals;
  bool cond;
  bool clock_ok, clock_writes;
  int64_t now;
  int arg;
  int line;
  bool bad_name, bad_sev, bad_fmt, bad_arg, bad_loc;
} g;
static const char g_name[] = "logger.name";
static const char g_fmt[] = "format %d";

#include "rcutils/logging.h"
bool g_rcutils_logging_initialized;
rcutils_ret_t rcutils_logging_initialize_with_allocator(rcutils_allocator_t a)
{
  (void)a;
  return (rcutils_ret_t)vp_nd(2);
}
rcutils_allocator_t rcutils_get_default_allocator(void)
{
  static rcutils_allocator_t a;
  return a;
}
bool rcutils_logging_logger_is_enabled_for(const char * name, int severity)
{
  g.asked = 1;
  if (name != g.name) {g.bad_name = true;}
  if (severity != g.sev) {g.bad_sev = true;}
  return g.en;
}
#ifndef VP_NATIVE
#define vp_same(a, b) ((a)[0] == (b)[0] && (a)[1] == (b)[1])
#else
#define vp_same(a, b) (strcmp((a), (b)) == 0)
#endif
static const char * g_fn;
static void vp_logged(const rcutils_log_location_t * l, int severity, const char * name, const char * fmt, int arg)
{
  if (g.fired < 3) {g.fired++;}
  if (name != g.name) {g.bad_name = true;}
  if (severity != g.sev) {g.bad_sev = true;}
  if (fmt != g_fmt) {g.bad_fmt = true;}
  if (arg != g.arg) {g.bad_arg = true;}
  if (l == NULL || l->line_number != (size_t)g.line || !vp_same(l->function_name, g_fn) ||
    !vp_same(l->file_name, __FILE__)) {g.bad_loc = true;}
}
void rcutils_log_internal(const rcutils_log_location_t * l, int severity, const char * name, const char * fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  int a = fmt == g_fmt ? va_arg(ap, int) : 0;
  va_end(ap);
  vp_logged(l, severity, name, fmt, a);
}
void rcutils_log(const rcutils_log_location_t * l, int severity, const char * name, const char * fmt, ...)
{
  (void)l; (void)name; (void)fmt;
  if (severity == RCUTILS_LOG_SEVERITY_ERROR && g.errlog < 3) {g.errlog++;}
  if (fmt == g_fmt) {
    va_list ap;
    va_start(ap, fmt);
    int a = va_arg(ap, int);
    va_end(ap);
    if (g.en) {vp_logged(l, severity, name, fmt, a);}
  }
}

// ---- the state a macro keeps, in proof mode set to an arbitrary value that matches the ghost state
static struct
{
  bool seen;            // the condition was reached before
  int64_t last;         // time of the last logged call
  int64_t dur;          // duration in nanoseconds
  int once_val;
} s;
#define DUR_MS 1000
#define DUR_NS (DUR_MS * (int64_t)1000000)
#define TMAX ((int64_t)1 << 62)
static void * p_once, * p_first, * p_last;
static size_t n_once, n_first;
#define VP_ST___rcutils_logging_once \
  VP_CHECK(!__rcutils_logging_once, "ONCE: at first no call was seen"); \
  __rcutils_logging_once = s.seen ? s.once_val : 0; \
  p_once = &__rcutils_logging_once; n_once = sizeof(__rcutils_logging_once);
#define VP_ST___rcutils_logging_first \
  VP_CHECK(__rcutils_logging_first, "SKIPFIRST: at first no call was seen"); \
  __rcutils_logging_first = s.seen ? 0 : 1; \
  p_first = &__rcutils_logging_first; n_first = sizeof(__rcutils_logging_first);
#define VP_ST___rcutils_logging_duration \
  VP_CHECK(__rcutils_logging_duration == DUR_NS, "THROTTLE: the duration is given in milliseconds"); \
  __rcutils_logging_duration = s.dur;
#define VP_ST___rcutils_logging_last_logged \
  VP_CHECK(__rcutils_logging_last_logged == 0, "THROTTLE: at first the last time is zero"); \
  __rcutils_logging_last_logged = s.last; \
  p_last = &__rcutils_logging_last_logged;
#ifdef VP_PROOF
#include "logging_macros_hooked.h"
#else
#include "rcutils/logging_macros.h"
#endif
static int64_t rd(void * p, size_t n)
{
  VP_CHECK(n == 1 || n == 4 || n == 8, "the type of the state");
  return n == 1 ? *(unsigned char *)p : n == 4 ? *(int *)p : *(int64_t *)p;
}

static rcutils_ret_t vp_clock(rcutils_time_point_value_t * t)
{
  if (!g.clock_ok) {
    if (g.clock_writes) {*t = g.now;}
    return RCUTILS_RET_ERROR;
  }
  *t = g.now;
  return RCUTILS_RET_OK;
}
static bool vp_cond(void) {if (g.evals < 3) {g.evals++;} return g.cond;}
static int g_true;
static int vp_expr(void) {if (g.evals < 3) {g.evals++;} return g.cond ? g_true : 0;}

#define ONE(SEV, SUF, ...) \
  if (g.sev == RCUTILS_LOG_SEVERITY_ ## SEV) {RCUTILS_LOG_ ## SEV ## SUF(__VA_ARGS__);}
#define FIVE(SUF, ...) \
  ONE(DEBUG, SUF, __VA_ARGS__) ONE(INFO, SUF, __VA_ARGS__) ONE(WARN, SUF, __VA_ARGS__) \
  ONE(ERROR, SUF, __VA_ARGS__) ONE(FATAL, SUF, __VA_ARGS__)
#define SITE(F, SUF, ...) \
  static void site_ ## F(void) \
  { \
    g.line = __LINE__; \
    g_fn = __func__; \
    if (g.name) {FIVE(SUF ## _NAMED, __VA_ARGS__ g_name, g_fmt, g.arg)} else {FIVE(SUF, __VA_ARGS__ g_fmt, g.arg)} \
  }
SITE(plain, , )
SITE(once, _ONCE, )
SITE(skipfirst, _SKIPFIRST, )
SITE(expression, _EXPRESSION, vp_expr(), )
SITE(function, _FUNCTION, &vp_cond, )
SITE(throttle, _THROTTLE, vp_clock, DUR_MS, )
SITE(skipfirst_throttle, _SKIPFIRST_THROTTLE, vp_clock, DUR_MS, )

// One call of a site; f: which.  Returns false if what to expect is not determined.
enum {PLAIN, ONCE, SKIPFIRST, EXPRESSION, FUNCTION, THROTTLE, SKIPFIRST_THROTTLE};
static bool g_unknown;   // the last time is not determined (the clock could not be read then)
static void one(int f)
{
  g.en = vp_bool();
  g.cond = vp_bool();
  g.clock_ok = vp_nd(7) != 0;
  g.clock_writes = vp_bool();
#ifdef VP_NATIVE
  g.now = (int64_t)vp_nd(24) * (DUR_NS / 4) + (int64_t)vp_nd(2) - 1;
#else
  g.now = (int64_t)vp_nd(UINT64_MAX);
#endif
  VP_ASSUME(g.now > -TMAX && g.now < TMAX);
  g.arg = (int)vp_nd(UINT32_MAX);
  g_true = (int)vp_nd(UINT32_MAX);
  VP_ASSUME(g_true != 0);
  g.asked = g.fired = g.errlog = g.evals = 0;
  g.bad_name = g.bad_sev = g.bad_fmt = g.bad_arg = g.bad_loc = false;
  bool seen = s.seen, pass = true, fire = g.en;
  int64_t last = s.last;
  switch (f) {
    case PLAIN: site_plain(); break;
    case ONCE: site_once(); break;
    case SKIPFIRST: site_skipfirst(); break;
    case EXPRESSION: site_expression(); break;
    case FUNCTION: site_function(); break;
    case THROTTLE: site_throttle(); break;
    default: site_skipfirst_throttle(); break;
  }
#ifdef VP_MIN
  if (g.sev < 10 * (VP_MIN + 1)) {
    VP_CHECK(!g.asked && !g.fired && !g.errlog && !g.evals, "macros below the minimum severity do nothing");
    return;
  }
#endif
  VP_CHECK(g.asked, "the logger is asked whether it is enabled");
  bool throttle = f == THROTTLE || f == SKIPFIRST_THROTTLE;
  if (throttle && g.en) {
    pass = !g.clock_ok || g.now >= last + s.dur;
  }
  switch (f) {
    case ONCE: fire = g.en && !seen; break;
    case SKIPFIRST: fire = g.en && seen; break;
    case EXPRESSION: case FUNCTION: fire = g.en && g.cond; break;
    case THROTTLE: fire = g.en && pass; break;
    case SKIPFIRST_THROTTLE: fire = g.en && pass && seen; break;
  }
  bool known = !(throttle && g_unknown && g.clock_ok);
#ifdef VP_PROOF
  known = true;
#endif
  if (known) {
    VP_CHECK(g.fired == (fire ? 1 : 0), "a call logs exactly when its condition says so");
  } else {
    VP_CHECK(g.fired <= (g.en ? 1 : 0), "a call logs at most once");
  }
  VP_CHECK(!g.bad_name, "the given name, or none, is used");
  VP_CHECK(!g.bad_sev, "the severity of the macro is used");
  VP_CHECK(!g.bad_fmt && !g.bad_arg, "format and arguments are passed on");
  VP_CHECK(!g.bad_loc, "the location of the call is passed on");
  if (f == EXPRESSION || f == FUNCTION) {
    VP_CHECK(g.evals == (g.en ? 1 : 0), "the condition is evaluated once, if the statement is enabled");
  }
  if (throttle) {
    VP_CHECK((g.errlog >= 1) || !(g.en && !g.clock_ok), "an unreadable clock is reported");
  }
  // ghost state after the call
  if (g.en) {
    if (f == ONCE || f == SKIPFIRST || (f == SKIPFIRST_THROTTLE && pass)) {s.seen = true;}
    if (throttle && pass) {
      s.last = g.clock_ok ? g.now : g.clock_writes ? g.now : 0;
      if (!known && g.fired == 0) {s.last = last;} else {g_unknown = !g.clock_ok;}
      if (f == SKIPFIRST_THROTTLE && !known) {VP_ASSUME(false);}
    }
  }
#ifdef VP_PROOF
  if (p_once) {
    VP_CHECK((rd(p_once, n_once) != 0) == s.seen, "ONCE: the state tells whether a call was seen");
  }
  if (p_first) {
    VP_CHECK((rd(p_first, n_first) != 0) == !s.seen, "SKIPFIRST: the state tells whether a call was seen");
  }
  if (p_last) {
    int64_t l = *(int64_t *)p_last;
    VP_CHECK(l == s.last || (!g.clock_ok && l == last), "THROTTLE: the state is the last time");
  }
  if (g.en && f == ONCE) {VP_CHECK(p_once, "ONCE: the state is known");}
  if (g.en && f == SKIPFIRST) {VP_CHECK(p_first, "SKIPFIRST: the state is known");}
  if (g.en && throttle) {VP_CHECK(p_last, "THROTTLE: the state is known");}
#endif
}
static void run(int f)
{
  static const int sevs[5] = {RCUTILS_LOG_SEVERITY_DEBUG, RCUTILS_LOG_SEVERITY_INFO, RCUTILS_LOG_SEVERITY_WARN,
    RCUTILS_LOG_SEVERITY_ERROR, RCUTILS_LOG_SEVERITY_FATAL};
  g.sev = sevs[vp_nd(4)];
  g.name = vp_bool() ? g_name : NULL;
  g_rcutils_logging_initialized = vp_bool();
#ifdef VP_PROOF
  s.seen = vp_bool();
  s.once_val = 1;
  s.last = (int64_t)vp_nd(UINT64_MAX);
  s.dur = (int64_t)vp_nd(UINT64_MAX);
  VP_ASSUME(s.last > -TMAX && s.last < TMAX && s.dur > -TMAX && s.dur < TMAX);
  if (f == PLAIN || f == EXPRESSION || f == FUNCTION || f == THROTTLE) {s.seen = false;}
  one(f);
  if (g.fired) {VP_REACH("logged");} else {VP_REACH("not logged");}
#else
  s.dur = DUR_NS;
  size_t n = vp_nd(VP_LIM(3, 3, 12));
#ifndef VP_NATIVE
  VP_ASSUME(n <= 3);
#endif
  for (size_t i = 0; i < n; ++i) {one(f);}
#endif
}
void h_macro_plain(void) {run(PLAIN);}
void h_macro_once(void) {run(ONCE);}
void h_macro_skipfirst(void) {run(SKIPFIRST);}
void h_macro_expression(void) {run(EXPRESSION);}
void h_macro_function(void) {run(FUNCTION);}
void h_macro_throttle(void) {run(THROTTLE);}
void h_macro_skipfirst_throttle(void) {run(SKIPFIRST_THROTTLE);}
#ifdef VP_MIN
void h_macro_min(void) {run((int)vp_nd(6));}
void h_macro_none(void)
{
  static const int sevs[5] = {RCUTILS_LOG_SEVERITY_DEBUG, RCUTILS_LOG_SEVERITY_INFO, RCUTILS_LOG_SEVERITY_WARN,
    RCUTILS_LOG_SEVERITY_ERROR, RCUTILS_LOG_SEVERITY_FATAL};
  g.sev = sevs[vp_nd(4)];
  one((int)vp_nd(6));
  VP_REACHP("all compiled out");
}
#endif
