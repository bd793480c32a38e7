// C16-C20: logging, against independent models of levels, format and output (native search; the
// per-function contracts are in h_logging_fn.c, which includes this file for its native side).
#include "vp.h"
#include "vp_str.h"
#include "vp_mem.h"
#include "vp_err.h"
#include "vp_alloc.h"
#ifdef VP_NATIVE
#include "rcutils/logging.h"
#include "rcutils/logging_macros.h"
#undef RCUTILS_LOG_ERROR_EXPRESSION
#define RCUTILS_LOG_ERROR_EXPRESSION(expression, ...) ((void)(expression))
#include "rcutils/time.h"
#include "rcutils/env.h"

static struct {const char * name; const char * value;} g_env[] = {
  {"RCUTILS_CONSOLE_STDOUT_LINE_BUFFERED", ""}, {"RCUTILS_LOGGING_USE_STDOUT", ""},
  {"RCUTILS_LOGGING_BUFFERED_STREAM", ""}, {"RCUTILS_COLORIZED_OUTPUT", ""},
  {"RCUTILS_CONSOLE_OUTPUT_FORMAT", ""}};
static int g_env_fail = -1;
const char * rcutils_get_env(const char * name, const char ** value)
{
  for (int i = 0; i < 5; ++i) {
    if (strcmp(name, g_env[i].name) == 0) {
      if (i == g_env_fail) {return "failed";}
      *value = g_env[i].value;
      return NULL;
    }
  }
  VP_CHECK(0, "only the documented environment variables are read");
  return "unknown";
}
static rcutils_time_point_value_t g_now;
static bool g_now_fail;
static rcutils_ret_t vp_system_now(rcutils_time_point_value_t * t)
{
  if (g_now_fail) {return RCUTILS_RET_ERROR;}
  *t = g_now;
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_system_time_now(rcutils_time_point_value_t * t) {return vp_system_now(t);}
rcutils_ret_t rcutils_steady_time_now(rcutils_time_point_value_t * t) {return vp_system_now(t);}

static FILE * g_out_f, * g_err_f;
static char * g_out_b, * g_err_b;
static size_t g_out_n, g_err_n;
static void streams_open(void)
{
  g_out_f = open_memstream(&g_out_b, &g_out_n);
  g_err_f = open_memstream(&g_err_b, &g_err_n);
}
static void streams_close(void)
{
  fclose(g_out_f);
  fclose(g_err_f);
  (free)(g_out_b);
  (free)(g_err_b);
}
static struct {int calls; FILE * f; int mode; bool fail;} g_vbuf;
static int vp_setvbuf(FILE * f, char * b, int mode, size_t n)
{
  (void)n;
  VP_CHECK(b == NULL, "the stream allocates its own buffer");
  g_vbuf.calls++;
  g_vbuf.f = f;
  g_vbuf.mode = mode;
  return g_vbuf.fail ? -1 : 0;
}
static bool g_tty_out, g_tty_err;
static int vp_fileno(FILE * f) {return f == g_out_f ? 1 : f == g_err_f ? 2 : -1;}
static int vp_isatty(int fd) {return fd == 1 ? g_tty_out : fd == 2 ? g_tty_err : 0;}
#undef stdout
#undef stderr
#define stdout g_out_f
#define stderr g_err_f
#define setvbuf(f, b, m, n) vp_setvbuf(f, b, m, n)
#undef fileno
#define fileno(f) vp_fileno(f)
#define isatty(d) vp_isatty(d)
#undef RCUTILS_SAFE_FWRITE_TO_STDERR
#define RCUTILS_SAFE_FWRITE_TO_STDERR(msg) ((void)(msg))
#undef RCUTILS_SET_ERROR_MSG
#define RCUTILS_SET_ERROR_MSG(msg) rcutils_set_error_state(msg, "", 0)
#include "snprintf.c"
#include "strdup.c"
#include "find.c"
#include "strerror.c"
#include "char_array.c"
#include "array_list.c"
#undef MIN
#include "hash_map.c"
#include "time.c"
#include "logging.c"
#define K(a) (sizeof(a) / sizeof((a)[0]))

static bool start(rcutils_allocator_t a)
{
  rcutils_ret_t r = rcutils_logging_initialize_with_allocator(a);
  if (r == RCUTILS_RET_OK) {
    VP_CHECK(g_rcutils_logging_initialized, "initialized");
    return true;
  }
  VP_CHECK(!g_rcutils_logging_initialized && g_al.live == 0, "a failing initialization leaves nothing behind");
  return false;
}
static void stop(void)
{
  VP_CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "shutdown succeeds");
  VP_CHECK(!g_rcutils_logging_initialized && g_al.live == 0, "shutdown releases everything");
}

// ---- C16 ------------------------------------------------------------------------------------------
static const char * const names[] = {"", "a", "a.b", "a.b.c", "ab", "a.", "a..b", ".a", "a.b.c.d", ".", "b", "a.bc", "a.b.", "longer_name.with.parts"};
#define NNAMES K(names)
static int m_level[NNAMES], m_default;
static void m_reset(void)
{
  for (size_t i = 0; i < NNAMES; ++i) {m_level[i] = -1;}
  m_default = RCUTILS_LOG_SEVERITY_INFO;
}
static int m_find(const char * s, size_t n)
{
  for (size_t i = 0; i < NNAMES; ++i) {
    if (strlen(names[i]) == n && strncmp(names[i], s, n) == 0) {return (int)i;}
  }
  return -1;
}
static int m_effective(const char * s)
{
  size_t n = strlen(s);
  for (;; ) {
    int i = m_find(s, n);
    if (i >= 0 && m_level[i] > 0) {return m_level[i];}
    while (n > 0 && s[n - 1] != '.') {--n;}
    if (n == 0) {return m_default;}
    --n;
  }
}
void h_log_level(void)
{
  rcutils_allocator_t a = vp_allocator(false);
  m_reset();
  if (vp_nd(15) == 0) {
    rcutils_allocator_t bad = a;
    bad.reallocate = NULL;
    VP_CHECK(rcutils_logging_initialize_with_allocator(bad) == RCUTILS_RET_INVALID_ARGUMENT, "an invalid allocator is refused");
  }
  g_al.may_fail = vp_nd(7) == 0;
  if (!start(a)) {
    VP_CHECK(g_al.failed, "initialization fails only when memory runs out");
    return;
  }
  VP_CHECK(rcutils_logging_initialize_with_allocator(a) == RCUTILS_RET_OK, "initializing again changes nothing");
  bool mf = vp_nd(3) == 0;
  size_t k = (size_t)vp_nd(25);
  for (size_t o = 0; o < k; ++o) {
    g_al.failed = false;
    g_al.may_fail = mf && vp_nd(2) == 0;
    int i = (int)vp_nd(NNAMES - 1);
    char name[64], tail[80];
    strcpy(name, names[i]);
    strcpy(tail, names[i]);
    strcat(tail, "tail");
    size_t live = g_al.live;
    switch (vp_nd(8)) {
      case 0: case 1: case 2: {
          int l = vp_nd(7) ? (int)vp_nd(5) * 10 : (int)vp_nd(60) - 2;
          bool ok = l >= 0 && l <= 50 && l % 10 == 0;
          rcutils_ret_t r = rcutils_logging_set_logger_level(name, l);
          if (!ok) {
            VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT, "an unknown level is refused");
          } else if (r == RCUTILS_RET_OK) {
            m_level[i] = l;
            if (i == 0) {m_default = l;}
          } else {
            VP_CHECK(g_al.failed, "setting a level fails only when memory runs out");
          }
          VP_CHECK(VP_IMP(r != RCUTILS_RET_OK && g_al.live != live, false), "a failing set leaks nothing");
          memset(name, 'z', strlen(name));
          break;
        }
      case 3: {
          int r = rcutils_logging_get_logger_level(name);
          int want = i == 0 ? m_default : m_level[i] > 0 ? m_level[i] : RCUTILS_LOG_SEVERITY_UNSET;
          VP_CHECK(r == want || (r == -1 && g_al.failed), "a logger's own level");
          VP_CHECK(rcutils_logging_get_logger_level(NULL) == -1 && rcutils_logging_get_logger_effective_level(NULL) == -1 && rcutils_logging_get_logger_leveln(NULL, 2) == -1, "no name");
          VP_CHECK(rcutils_logging_set_logger_level(NULL, 10) == RCUTILS_RET_INVALID_ARGUMENT, "no name");
          break;
        }
      case 4: {
          int r = rcutils_logging_get_logger_leveln(tail, strlen(names[i]));
          int want = i == 0 ? m_default : m_level[i] > 0 ? m_level[i] : RCUTILS_LOG_SEVERITY_UNSET;
          VP_CHECK(r == want || (r == -1 && g_al.failed), "a logger's own level, by length");
          break;
        }
      case 5: case 6: {
          char ext[80];
          strcpy(ext, name);
          if (vp_bool()) {strcat(ext, vp_bool() ? ".x" : vp_bool() ? "x" : ".x.y");}
          int r = rcutils_logging_get_logger_effective_level(ext);
          VP_CHECK(r == m_effective(ext) || (r == -1 && g_al.failed), "the effective level is that of the nearest ancestor with a level, or the default");
          int s = (int)vp_nd(60);
          bool f0 = g_al.failed;
          g_al.failed = false;
          bool e = rcutils_logging_logger_is_enabled_for(ext, s);
          VP_CHECK(e == (s >= m_effective(ext)) || (!e && g_al.failed), "enabled from the effective level on");
          (void)f0;
          break;
        }
      case 7: {
          if (vp_bool()) {
            int l = (int)vp_nd(60);
            rcutils_logging_set_default_logger_level(l);
            m_default = l == 0 ? RCUTILS_LOG_SEVERITY_INFO : l;
          }
          VP_CHECK(rcutils_logging_get_default_logger_level() == m_default, "the default level");
          int s = (int)vp_nd(60);
          VP_CHECK(rcutils_logging_logger_is_enabled_for(NULL, s) == (s >= m_default), "no name means the default level");
          break;
        }
      default:
        if (vp_nd(3) == 0) {
          stop();
          VP_CHECK(rcutils_logging_shutdown() == RCUTILS_RET_OK, "shutting down again changes nothing");
          g_al.may_fail = false;
          if (!start(a)) {VP_CHECK(0, "initialization succeeds");}
          m_reset();
        }
    }
  }
  g_al.may_fail = false;
  for (size_t i = 0; i < NNAMES; ++i) {
    VP_CHECK(rcutils_logging_get_logger_effective_level(names[i]) == m_effective(names[i]), "the effective levels of all loggers");
  }
  stop();
}

// ---- C17 ------------------------------------------------------------------------------------------
static char f_src[2300], f_dec[2300], f_want[200000];
static void f_random(void)
{
  static const char * const parts[] = {"{", "}", "{{", "}}", "{}", "\\", "\\\\", "\\n", "\\t", "\\a", "\\b", "\\r", "\\x1b", "\\x1", "\\x", "\\q", "x1b", "n",
    "{severity}", "{name}", "{message}", "{function_name}", "{file_name}", "{time}", "{date_time_with_ms}", "{time_as_nanoseconds}", "{line_number}",
    "{nam}", "{names}", "{{name}}", "{ name}", "{name }", "{nam\\te}", "text", " ", ":", "{message", "%s%n", "{Name}", "{na{name}me}"};
  f_src[0] = 0;
  if (vp_nd(15) == 0) {
    memset(f_src, vp_bool() ? 'L' : vp_bool() ? '\\' : 'n', 2300);
    f_src[2030 + vp_nd(40)] = 0;
  }
  for (size_t k = (size_t)vp_nd(9); k > 0; --k) {
    const char * t = parts[vp_nd(K(parts) - 1)];
    if (strlen(f_src) + strlen(t) < 2290) {strcat(f_src, t);}
  }
  if (f_src[0] == 0) {strcpy(f_src, "{message}");}
}
static void f_decode(void)
{
  size_t n = strlen(f_src), d = 0;
  if (n > RCUTILS_LOGGING_MAX_OUTPUT_FORMAT_LEN - 1) {n = RCUTILS_LOGGING_MAX_OUTPUT_FORMAT_LEN - 1;}
  for (size_t i = 0; i < n; ) {
    static const char from[] = "abnrt", to[] = "\a\b\n\r\t";
    const char * e;
    if (f_src[i] != '\\') {
      f_dec[d++] = f_src[i++];
    } else if (strncmp(f_src + i, "\\x1b", 4) == 0) {
      f_dec[d++] = '\x1b';
      i += 4;
    } else if (f_src[i + 1] && (e = strchr(from, f_src[i + 1])) != NULL) {
      f_dec[d++] = to[e - from];
      i += 2;
    } else {
      f_dec[d++] = f_src[i++];
      if (i < n) {f_dec[d++] = f_src[i++];}
    }
  }
  f_dec[d] = 0;
}
static void f_expand(const rcutils_log_location_t * loc, int sev, const char * name, rcutils_time_point_value_t t, const char * msg)
{
  char * w = f_want;
  *w = 0;
  for (const char * p = f_dec; *p; ) {
    const char * e;
    if (*p != '{' || (e = strchr(p, '}')) == NULL) {
      *w++ = *p++;
      continue;
    }
    char tok[2300], val[64] = "";
    const char * v = val;
    memcpy(tok, p + 1, (size_t)(e - p - 1));
    tok[e - p - 1] = 0;
    if (!strcmp(tok, "severity")) {
      v = sev == 10 ? "DEBUG" : sev == 20 ? "INFO" : sev == 30 ? "WARN" : sev == 40 ? "ERROR" : sev == 50 ? "FATAL" : "UNSET";
    } else if (!strcmp(tok, "name")) {
      v = name ? name : "";
    } else if (!strcmp(tok, "message")) {
      v = msg;
    } else if (!strcmp(tok, "function_name")) {
      v = loc ? loc->function_name : "";
    } else if (!strcmp(tok, "file_name")) {
      v = loc ? loc->file_name : "";
    } else if (!strcmp(tok, "line_number")) {
      if (loc) {sprintf(val, "%zu", loc->line_number); val[9] = 0;}
    } else if (!strcmp(tok, "time")) {
      (void)!rcutils_time_point_value_as_seconds_string(&t, val, sizeof val);
    } else if (!strcmp(tok, "date_time_with_ms")) {
      (void)!rcutils_time_point_value_as_date_string(&t, val, sizeof val);
    } else if (!strcmp(tok, "time_as_nanoseconds")) {
      (void)!rcutils_time_point_value_as_nanoseconds_string(&t, val, sizeof val);
    } else {
      *w++ = *p++;
      continue;
    }
    strcpy(w, v);
    w += strlen(v);
    p = e + 1;
  }
  *w = 0;
}
static char * rtext(size_t n)
{
  char * p = (malloc)(n + 1);
  for (size_t i = 0; i < n; ++i) {p[i] = "abcdefg{name}%s\\n"[(i + n) % 17];}
  p[n] = 0;
  return p;
}
static size_t rlen(void)
{
  switch (vp_nd(5)) {
    case 0: return (size_t)vp_nd(1030);
    case 1: return 1000 + (size_t)vp_nd(40);
    case 2: return 2000 + (size_t)vp_nd(100);
    default: return (size_t)vp_nd(10);
  }
}
void h_log_format(void)
{
  rcutils_allocator_t a = vp_allocator(false);
  bool mf = vp_nd(7) == 0;
  for (int round = 0; round < 3; ++round) {
    g_al.may_fail = false;
    f_random();
    g_env[4].value = f_src;
    if (!start(a)) {VP_CHECK(0, "initialization succeeds");}
    size_t live = g_al.live;
    f_decode();
    rcutils_log_location_t loc;
    char * fn = rtext(rlen()), * file = rtext(rlen()), * name = rtext(rlen()), * msg = rtext(rlen());
    loc.function_name = fn;
    loc.file_name = file;
    loc.line_number = vp_bool() ? (size_t)vp_nd(999999999) : (size_t)vp_nd(UINT64_MAX);
    bool noloc = vp_nd(3) == 0, noname = vp_nd(3) == 0;
    int sev = (int)vp_nd(5) * 10;
    if (vp_nd(15) == 0) {sev = vp_bool() ? (int)(unsigned)vp_nd(UINT32_MAX) : (int)vp_nd(60) - 5;}
    bool known = sev >= 0 && sev <= 50 && sev % 10 == 0;
    rcutils_time_point_value_t t = vp_bool() ? (rcutils_time_point_value_t)vp_nd(UINT64_MAX) : (rcutils_time_point_value_t)vp_nd((uint64_t)2000000000 * 1000000000);
    rcutils_char_array_t o;
    char * buf = NULL;
    size_t cap = vp_bool() ? 1 + (size_t)vp_nd(20) : 1024;
    buf = (malloc)(cap);
    buf[0] = 0;
    o.buffer = buf;
    o.owns_buffer = false;
    o.buffer_length = 0;
    o.buffer_capacity = cap;
    o.allocator = a;
    f_expand(noloc ? NULL : &loc, sev, noname ? NULL : name, t, msg);
    g_al.may_fail = mf;
    rcutils_ret_t r = rcutils_logging_format_message(noloc ? NULL : &loc, sev, noname ? NULL : name, t, msg, &o);
    g_al.may_fail = false;
    if (r == RCUTILS_RET_OK) {
      VP_CHECK(known || strstr(f_dec, "{severity}") == NULL, "an unknown severity has no name");
      VP_CHECK(strlen(o.buffer) == strlen(f_want) && strcmp(o.buffer, f_want) == 0, "the format with every known token replaced and all other text unchanged");
    } else {
      VP_CHECK(g_al.failed || (!known && strstr(f_dec, "{severity}") != NULL), "formatting fails only when memory runs out or the severity is unknown");
      g_al.failed = false;
    }
    VP_CHECK(rcutils_char_array_fini(&o) == RCUTILS_RET_OK && g_al.live == live, "the caller's array holds the only new memory");
    (free)(buf); (free)(fn); (free)(file); (free)(name); (free)(msg);
    stop();
  }
}

// ---- C18 ------------------------------------------------------------------------------------------
static struct {int n, which; const rcutils_log_location_t * loc; int sev; const char * name; rcutils_time_point_value_t t; const char * f; int a; const char * b; int64_t c;} g_call;
static void on_call(int which, const rcutils_log_location_t * loc, int sev, const char * name, rcutils_time_point_value_t t, const char * f, va_list * args)
{
  g_call.n++;
  g_call.which = which;
  g_call.loc = loc; g_call.sev = sev; g_call.name = name; g_call.t = t; g_call.f = f;
  va_list c;
  va_copy(c, *args);
  g_call.a = va_arg(c, int);
  g_call.b = va_arg(c, const char *);
  g_call.c = va_arg(c, int64_t);
  va_end(c);
}
static void handler_a(const rcutils_log_location_t * l, int s, const char * n, rcutils_time_point_value_t t, const char * f, va_list * args) {on_call(1, l, s, n, t, f, args);}
static void handler_b(const rcutils_log_location_t * l, int s, const char * n, rcutils_time_point_value_t t, const char * f, va_list * args) {on_call(2, l, s, n, t, f, args);}
void h_log_call(void)
{
  streams_open();
  rcutils_allocator_t a = vp_allocator(false);
  bool automatic = vp_bool();
  g_default_alloc_ok = automatic;
  m_reset();
  int handler = 0;   // 0 console 1 A 2 B 3 none
  if (!automatic && !start(a)) {VP_CHECK(0, "initialization succeeds");}
  size_t k = (size_t)vp_nd(16);
  for (size_t o = 0; o < k; ++o) {
    switch (vp_nd(7)) {
      case 0: {
          handler = 1 + (int)vp_nd(2);
          rcutils_logging_set_output_handler(handler == 1 ? handler_a : handler == 2 ? handler_b : NULL);
          break;
        }
      case 1: {
          int l = (int)vp_nd(6) * 10;
          rcutils_logging_set_default_logger_level(l);
          m_default = l == 0 ? 20 : l;
          break;
        }
      case 2: {
          int i = (int)vp_nd(NNAMES - 1), l = (int)vp_nd(5) * 10;
          VP_CHECK(rcutils_logging_set_logger_level(names[i], l) == RCUTILS_RET_OK, "the level is set");
          m_level[i] = l;
          if (i == 0) {m_default = l;}
          break;
        }
      case 3:
        if (vp_nd(3) == 0) {
          stop();
          if (!automatic && !start(a)) {VP_CHECK(0, "initialization succeeds");}
          m_reset();
          handler = 0;
        }
        break;
      default: {
          rcutils_log_location_t loc = {"f", "g", 3};
          const rcutils_log_location_t * lp = vp_bool() ? &loc : NULL;
          const char * name = vp_nd(3) ? names[vp_nd(NNAMES - 1)] : NULL;
          int sev = vp_bool() ? (int)vp_nd(6) * 10 : (int)vp_nd(60) - 5;
          int x = (int)(unsigned)vp_nd(UINT32_MAX);
          int64_t y = (int64_t)vp_nd(UINT64_MAX);
          const char * f = "%d %s %ld", * s = "s";
          g_now = (rcutils_time_point_value_t)vp_nd(UINT64_MAX);
          g_now_fail = vp_nd(15) == 0;
          g_call.n = 0;
          bool internal = vp_nd(3) == 0, want;
          if (internal) {
            if (handler == 0) {break;}
            rcutils_log_internal(lp, sev, name, f, x, s, y);
            want = true;
          } else {
            want = sev >= (name ? m_effective(name) : m_default);
            rcutils_log(lp, sev, name, f, x, s, y);
          }
          want = want && !g_now_fail && (handler == 1 || handler == 2);
          VP_CHECK(g_call.n == (want ? 1 : 0), "the installed handler is called once if the logger is enabled, and not otherwise");
          if (want) {
            VP_CHECK(g_call.which == handler, "the handler installed last is called");
            VP_CHECK(g_call.loc == lp && g_call.sev == sev && strcmp(g_call.name, name ? name : "") == 0 && g_call.t == g_now && g_call.f == f, "with the caller's location, severity, name and format and the time of the call");
            VP_CHECK(g_call.a == x && g_call.b == s && g_call.c == y, "with the caller's arguments");
          }
          g_now_fail = false;
        }
    }
    rcutils_logging_output_handler_t h = rcutils_logging_get_output_handler();
    VP_CHECK(h == (handler == 0 ? rcutils_logging_console_output_handler : handler == 1 ? handler_a : handler == 2 ? handler_b : NULL), "the installed handler is read back");
    VP_CHECK(rcutils_logging_get_default_logger_level() == m_default, "the default level is read back");
  }
  stop();
  streams_close();
}

// ---- C19 ------------------------------------------------------------------------------------------
void h_log_sev(void)
{
  static const char * const sn[] = {"UNSET", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"};
  rcutils_allocator_t a = vp_allocator(vp_nd(3) == 0);
  bool bad = vp_nd(15) == 0, nulls = vp_nd(15) == 0, nullo = vp_nd(15) == 0;
  if (bad) {
    switch (vp_nd(3)) {
      case 0: a.allocate = NULL; break;
      case 1: a.deallocate = NULL; break;
      case 2: a.reallocate = NULL; break;
      default: a.zero_allocate = NULL; break;
    }
  }
  char s[16];
  size_t n;
  if (vp_nd(3)) {
    strcpy(s, sn[vp_nd(5)]);
    n = strlen(s);
    for (size_t i = 0; i < n; ++i) {if (vp_bool()) {s[i] = (char)(s[i] + 32);}}
    switch (vp_nd(7)) {
      case 0: s[vp_nd(n - 1)] = vp_char(); break;
      case 1: s[n] = vp_char(); s[n + 1] = 0; break;
      case 2: s[n - 1] = 0; break;
      case 3: s[vp_nd(n - 1)] ^= 32; s[vp_nd(n - 1)] ^= 64; break;
      default: break;
    }
  } else {
    for (n = 0; n < 7; ++n) {s[n] = vp_char();}
    s[7] = 0;
  }
  char was[16];
  memcpy(was, s, 16);
  int want = -1, got = -77;
  for (int i = 0; i < 6; ++i) {if (strcasecmp(s, sn[i]) == 0) {want = i * 10;}}
  rcutils_ret_t r = rcutils_logging_severity_level_from_string(nulls ? NULL : s, a, nullo ? NULL : &got);
  VP_CHECK(strcmp(was, s) == 0, "the string is not modified");
  VP_CHECK(g_al.live == 0, "nothing stays allocated");
  if (bad || nulls || nullo) {
    VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && got == -77, "invalid arguments are refused");
  } else if (r == RCUTILS_RET_BAD_ALLOC) {
    VP_CHECK(g_al.failed && got == -77, "only when memory runs out");
  } else if (want < 0) {
    VP_CHECK(r == RCUTILS_RET_LOGGING_SEVERITY_STRING_INVALID && got == -77, "anything else is refused and changes nothing");
  } else {
    VP_CHECK(r == RCUTILS_RET_OK && got == want, "a severity name, ignoring case, gives the severity");
    VP_CHECK(strcmp(g_rcutils_log_severity_names[got], sn[got / 10]) == 0, "the severity gives its name");
  }
}

// ---- C20 ------------------------------------------------------------------------------------------
static void console(int sev, const char * name, const rcutils_log_location_t * loc, rcutils_time_point_value_t t, const char * f, ...)
{
  va_list args;
  va_start(args, f);
  rcutils_logging_console_output_handler(loc, sev, name, t, f, &args);
  va_end(args);
}
void h_log_console(void)
{
  static const char * const tri[] = {"", "0", "1", "2", "01", "x"};
  streams_open();
  rcutils_allocator_t a = vp_allocator(false);
  console(20, "n", NULL, 0, "%s", "m");
  size_t e1 = vp_nd(K(tri) + 4) % K(tri), e2 = vp_nd(K(tri) + 4) % K(tri), e3 = vp_nd(K(tri) + 4) % K(tri);
  if (vp_bool()) {e1 %= 3; e2 %= 3; e3 %= 3;}
  g_env[1].value = tri[e1];
  g_env[2].value = tri[e2];
  g_env[3].value = tri[e3];
  f_random();
  if (vp_bool()) {f_src[0] = 0;}
  g_env[4].value = f_src;
  g_tty_out = vp_bool();
  g_tty_err = vp_bool();
  g_vbuf.fail = vp_nd(15) == 0;
  g_env_fail = vp_nd(15) == 0 ? (int)vp_nd(4) : -1;
  bool up = start(a);
  bool envok = e1 < 3 && e2 < 3 && e3 < 3 && !(g_vbuf.fail && (e2 == 1 || e2 == 2)) && (g_env_fail < 0 || g_env_fail == 4);
  VP_CHECK(up == envok, "initialization fails exactly when the environment is invalid");
  if (up) {
    if (f_src[0] == 0 || g_env_fail == 4) {strcpy(f_src, "[{severity}] [{time}] [{name}]: {message}");}
    f_decode();
    FILE * stream = e1 == 2 ? g_out_f : g_err_f;
    VP_CHECK(g_vbuf.calls == (e2 == 0 ? 0 : 1), "the stream's buffering is set only if asked for");
    if (e2) {VP_CHECK(g_vbuf.f == stream && g_vbuf.mode == (e2 == 1 ? _IONBF : _IOLBF), "the configured stream gets the configured buffering");}
    bool color = e3 == 2 || (e3 == 0 && (e1 == 2 ? g_tty_out : g_tty_err));
    bool mf = vp_nd(3) == 0;
    size_t live = g_al.live;
    for (size_t k = 1 + (size_t)vp_nd(2); k > 0; --k) {
      char * name = rtext(rlen()), * msg = rtext(rlen());
      rcutils_log_location_t loc = {"func", "file", (size_t)vp_nd(2000)};
      bool noloc = vp_bool();
      int sev = vp_nd(7) ? (int)vp_nd(5) * 10 : (int)vp_nd(70) - 5;
      bool known = sev > 0 && sev <= 50 && sev % 10 == 0;
      rcutils_time_point_value_t t = (rcutils_time_point_value_t)vp_nd((uint64_t)2000000000 * 1000000000);
      f_expand(noloc ? NULL : &loc, sev, name, t, msg);
      g_al.failed = false;
      g_al.may_fail = mf;
      fflush(g_out_f);
      fflush(g_err_f);
      size_t o0 = g_out_n, r0 = g_err_n;
      if (vp_bool()) {
        console(sev, name, noloc ? NULL : &loc, t, "%s", msg);
      } else {
        size_t h = strlen(msg) / 2;
        console(sev, name, noloc ? NULL : &loc, t, "%.*s%s", (int)h, msg, msg + h);
      }
      g_al.may_fail = false;
      fflush(g_out_f);
      fflush(g_err_f);
      VP_CHECK((e1 == 2 ? g_err_n == r0 : g_out_n == o0), "nothing goes to the other stream");
      const char * got = e1 == 2 ? g_out_b + o0 : g_err_b + r0;
      size_t n = e1 == 2 ? g_out_n - o0 : g_err_n - r0;
      const char * pre = !color ? "" : sev == 10 ? "\033[32m" : sev == 20 ? "\033[0m" : sev == 30 ? "\033[33m" : "\033[31m";
      const char * post = color ? "\033[0m\n" : "\n";
      size_t wn = strlen(pre) + strlen(f_want) + strlen(post);
      if (!known) {
        VP_CHECK(n == 0, "a message of unknown severity is not written");
      } else if (n == 0) {
        VP_CHECK(g_al.failed, "a message is dropped only when memory runs out");
      } else {
        VP_CHECK(n == wn && memcmp(got, pre, strlen(pre)) == 0 && memcmp(got + strlen(pre), f_want, strlen(f_want)) == 0 && memcmp(got + n - strlen(post), post, strlen(post)) == 0, "one complete line, in the severity's colour if colours are on");
      }
      VP_CHECK(g_al.live == live, "nothing stays allocated");
      (free)(name); (free)(msg);
    }
    stop();
  }
  streams_close();
}
#else
void h_log_level(void) {}
void h_log_format(void) {}
void h_log_call(void) {}
void h_log_sev(void) {}
void h_log_console(void) {}
#endif
