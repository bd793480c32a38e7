// C16-C20: logging.  Native units (models of the whole module) in h_logging.c; the proofs, function by
// function with the hash map, char array, string and time functions by contract, in the second half.
//VP unit=log_level prop=C16,C30,C31 modes=native funcs=rcutils_logging_set_logger_level,rcutils_logging_get_logger_level,rcutils_logging_get_logger_leveln,rcutils_logging_get_logger_effective_level,rcutils_logging_logger_is_enabled_for,rcutils_logging_set_default_logger_level
//VP unit=lv_effective prop=C16,C30,C31 modes=proof nentry=h_log_level defs=-DLP_EFFECTIVE funcs=rcutils_logging_get_logger_effective_level,get_severity_level loops=rcutils_logging_get_logger_effective_level_0 replace=rcutils_logging_initialize_with_allocator/contract_init
//VP unit=lv_get prop=C16,C30,C31 modes=proof nentry=h_log_level defs=-DLP_GET funcs=rcutils_logging_get_logger_leveln,rcutils_logging_get_logger_level,get_severity_level replace=rcutils_logging_initialize_with_allocator/contract_init
//VP unit=lv_set prop=C16,C30,C31 modes=proof nentry=h_log_level defs=-DLP_SET funcs=rcutils_logging_set_logger_level,add_key_to_hash_map loops=rcutils_logging_set_logger_level_0 replace=rcutils_logging_initialize_with_allocator/contract_init
//VP unit=lv_enabled prop=C16,C18 modes=proof nentry=h_log_level defs=-DLP_ENABLED funcs=rcutils_logging_logger_is_enabled_for replace=rcutils_logging_initialize_with_allocator/contract_init,rcutils_logging_get_logger_effective_level/contract_effective
//VP unit=log_format prop=C17 modes=native funcs=create_format_string,parse_and_create_handlers_list,rcutils_logging_format_message
//VP unit=lf_create prop=C17 arith=z3new solver=z3new split=1 modes=proof nentry=h_log_format defs=-DLP_CREATE punwind=6 funcs=create_format_string loops=create_format_string_0 replace=rcutils_findn/contract_findn
//VP unit=lf_lemma prop=C17 modes=proof arith=z3new solver=z3new split=1 native=0 defs="-DLP_CREATE -DLP_LEMMA" punwind=6 funcs=create_format_string enforce=vp_findn/contract_findn giflags=--apply-loop-contracts
//VP unit=lf_parse prop=C17 arith=z3new solver=z3new split=1 modes=proof nentry=h_log_format defs=-DLP_PARSE punwind=9 funcs=parse_and_create_handlers_list loops=parse_and_create_handlers_list_0 replace=add_handler/contract_add,find_token_handler/contract_token
//VP unit=lf_token prop=C17 modes=proof nentry=h_log_format defs=-DLP_TOKEN punwind=25 funcs=find_token_handler
//VP unit=lf_add prop=C17 solver=z3 modes=proof nentry=h_log_format defs=-DLP_TOKEN funcs=add_handler
//VP unit=lf_render prop=C17,C30 modes=proof nentry=h_log_format defs=-DLP_RENDER funcs=rcutils_logging_format_message loops=rcutils_logging_format_message_0
//VP unit=lf_expand prop=C17,C30 modes=proof nentry=h_log_format defs=-DLP_EXPAND punwind=34 funcs=expand_severity,expand_name,expand_message,expand_function_name,expand_file_name,expand_line_number,expand_time,expand_time_as_date,expand_time_as_seconds,expand_time_as_nanoseconds,copy_from_orig
//VP unit=log_call prop=C18 modes=native funcs=rcutils_log,rcutils_log_internal,vrcutils_log_internal,rcutils_logging_set_output_handler,rcutils_logging_get_output_handler
//VP unit=lg_call prop=C18,C16 modes=proof nentry=h_log_call defs=-DLP_CALL funcs=rcutils_log,rcutils_log_internal,vrcutils_log_internal,rcutils_logging_set_output_handler,rcutils_logging_get_output_handler,rcutils_logging_set_default_logger_level,rcutils_logging_get_default_logger_level 
//VP unit=lg_init prop=C18,C20,C30 modes=proof nentry=h_log_call defs=-DLP_INIT punwind=41 funcs=rcutils_logging_initialize_with_allocator,rcutils_get_env_var_zero_or_one replace=create_format_string/contract_create,parse_and_create_handlers_list/contract_parse
//VP unit=lg_fini prop=C18,C30 modes=proof nentry=h_log_call defs=-DLP_FINI funcs=rcutils_logging_shutdown loops=rcutils_logging_shutdown_0 replace=rcutils_logging_initialize_with_allocator/contract_init
//VP unit=lg_sev prop=C19,C30,C31 modes=proof nentry=h_log_sev defs=-DLP_SEV punwind=53 funcs=rcutils_logging_severity_level_from_string loops=rcutils_logging_severity_level_from_string_0
//VP unit=lg_console prop=C20,C30 modes=proof nentry=h_log_console defs=-DLP_CONSOLE funcs=rcutils_logging_console_output_handler replace=rcutils_logging_format_message/contract_format
//VP unit=log_sev prop=C19,C30,C31 modes=native funcs=rcutils_logging_severity_level_from_string
//VP unit=log_console prop=C20,C30 modes=native funcs=rcutils_logging_console_output_handler,rcutils_logging_initialize_with_allocator
//VP trust: hash map functions by the contracts proved for them in C07/C08; find, strdup, char array and time functions by those of C01, C04, C11, C13
//VP trust: strncmp returns 0 only when the second string has at least the compared number of characters (for a first string of that length)
//VP trust: the supplied allocator behaves as malloc/realloc/free (fresh objects, may fail at any call)
#ifndef VP_PROOF
#include "h_logging.c"
#else
#include "vp.h"
#include "vp_str.h"
#include "vp_mem.h"
#include "vp_err.h"
#include "vp_alloc.h"
#include "rcutils/logging.h"
#include "rcutils/logging_macros.h"
#include "rcutils/types/hash_map.h"
#include "rcutils/types/char_array.h"
#include "rcutils/find.h"
#include "rcutils/strdup.h"
#include "rcutils/env.h"
#include "rcutils/time.h"
size_t g_re_w;
#undef RCUTILS_SET_ERROR_MSG
#define RCUTILS_SET_ERROR_MSG(msg) rcutils_set_error_state(msg, "", 0)

static const char * g_name_arg;
static int g_sev_arg;
static bool g_enabled;
static size_t L;             // length of the logger name
static char * name;
static char * g_dup;         // the copy made of it
static size_t g_dup_len;
static size_t g_last;        // length of the key held by the copy
static bool g_may_fail_dup;
static rcutils_allocator_t AL;

#if defined(LP_EFFECTIVE) || defined(LP_GET) || defined(LP_SET)
static void vp_check_al(const rcutils_allocator_t * a)
{
  VP_CHECK(a->allocate == vp_allocate && a->deallocate == vp_deallocate && a->state == &g_al_state, "the logging system's allocator");
}
// strndup/strdup: a fresh NUL-terminated copy of the first characters (witness g_w), or NULL
char * rcutils_strndup(const char * s, size_t n, rcutils_allocator_t a)
{
  VP_CHECK(s == name, "the logger's name is copied");
  vp_check_al(&a);
  size_t k = n < L ? n : L;
  char * p = (char *)vp_allocate(k + 1, a.state);
  if (p == NULL) {return NULL;}
  if (g_w < k) {p[g_w] = s[g_w];}
  p[k] = 0;
  g_dup = p;
  g_dup_len = g_last = k;
  return p;
}
char * rcutils_strdup(const char * s, rcutils_allocator_t a) {return rcutils_strndup(s, L, a);}
// the length of a key the implementation looks up; its text is a prefix of the name
static size_t vp_key_len(const void * key)
{
  const char * k = *(const char * const *)key;
  if (k == name) {return L;}
  VP_CHECK(g_dup != NULL && k == g_dup, "the key looked up is the name or the copy of it");
  VP_CHECK(g_last <= g_dup_len && k[g_last] == 0, "the key ends where the ancestor's name ends");
  VP_CHECK(VP_IMP(g_w < g_last, k[g_w] == name[g_w]), "the key's text is that of the name");
  return g_last;
}
#endif

#ifdef LP_EFFECTIVE
static bool g_has_f, g_has_e;
static size_t f;             // length of the nearest configured prefix (L, or a separator's position)
static size_t e;             // the length at which the map reports an error, below any lookups that succeed
static int f_level;
static size_t g_map_size;
static bool g_map_ok;        // the map is initialized
rcutils_ret_t rcutils_hash_map_get_size(const rcutils_hash_map_t * m, size_t * size)
{
  (void)m;
  if (!g_map_ok) {return RCUTILS_RET_NOT_INITIALIZED;}
  *size = g_map_size;
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_hash_map_get(const rcutils_hash_map_t * m, const void * key, void * data)
{
  (void)m;
  VP_CHECK(g_map_ok, "the map is used only when initialized");
  size_t k = vp_key_len(key);
  VP_CHECK(VP_IMP(g_has_f, k >= f), "no ancestor further away than the nearest configured one is consulted");
  VP_CHECK(VP_IMP(g_has_e, k >= e), "an error ends the search");
  VP_CHECK(k == L || name[k] == '.', "ancestors end before a separator");
  if (g_has_e && k == e) {return RCUTILS_RET_ERROR;}
  if (g_has_f && k == f) {
    *(int *)data = f_level | 1;
    return RCUTILS_RET_OK;
  }
  if (vp_bool()) {return RCUTILS_RET_NOT_FOUND;}
  *(int *)data = RCUTILS_LOG_SEVERITY_UNSET | (int)vp_bool();
  return RCUTILS_RET_OK;
}
// find_lastn: the last separator below n, or SIZE_MAX; universally quantified, instances at f and e
size_t rcutils_find_lastn(const char * s, char c, size_t n)
{
  VP_CHECK(s == name && c == '.' && n <= L, "the name is searched for separators");
  size_t r = (size_t)vp_nd(SIZE_MAX);
  VP_ASSUME(r == SIZE_MAX || (r < n && s[r] == c));
  VP_ASSUME(VP_IMP(g_has_f && f < n && s[f] == c, r != SIZE_MAX && r >= f));
  VP_ASSUME(VP_IMP(g_has_e && e < n && s[e] == c, r != SIZE_MAX && r >= e));
  if (r != SIZE_MAX) {g_last = r;}
  return r;
}
#define VP_LOOP_rcutils_logging_get_logger_effective_level_0 \
  __CPROVER_assigns(substring_length, severity, g_last, __CPROVER_object_whole(tmp_name)) \
  __CPROVER_loop_invariant(substring_length <= L && severity == RCUTILS_LOG_SEVERITY_UNSET) \
  __CPROVER_loop_invariant(VP_IMP(g_has_f, f < substring_length) && VP_IMP(g_has_e, e < substring_length)) \
  __CPROVER_loop_invariant(VP_IMP(g_w < substring_length, tmp_name[g_w] == name[g_w])) \
  __CPROVER_loop_invariant(tmp_name[substring_length] == 0) \
  __CPROVER_decreases(substring_length)
#endif

#ifdef LP_GET
static rcutils_ret_t g_get_ret;
static int g_get_val;
static size_t g_want_len;
rcutils_ret_t rcutils_hash_map_get(const rcutils_hash_map_t * m, const void * key, void * data)
{
  (void)m;
  VP_CHECK(vp_key_len(key) == g_want_len, "the name of exactly the given length is looked up");
  if (g_get_ret == RCUTILS_RET_OK) {*(int *)data = g_get_val;}
  return g_get_ret;
}
#endif

#ifdef LP_SET
static bool g_exists, g_set_fails;
static size_t g_left;        // keys of the map not yet visited
static bool g_ended;
static int g_sets, g_iter_err;
static char * g_key;
static int g_set_level;
static const char * g_set_key;
bool rcutils_hash_map_key_exists(const rcutils_hash_map_t * m, const void * key)
{
  (void)m;
  VP_CHECK(*(const char * const *)key == name, "the logger's own name is looked up");
  return g_exists;
}
// every level in the map has been set by the user: bit 0 marks it
rcutils_ret_t rcutils_hash_map_get_next_key_and_data(const rcutils_hash_map_t * m, const void * prev, void * key, void * data)
{
  (void)m;
  VP_CHECK(VP_IMP(prev != NULL, g_key != NULL && *(char * const *)prev == g_key), "iteration continues from the key before");
  if (g_left == 0) {
    g_ended = true;
    return RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES;
  }
  g_left--;
  *(char **)key = g_key;
  *(int *)data = (int)vp_nd(50) | 1;
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_hash_map_unset(rcutils_hash_map_t * m, const void * key)
{
  (void)m; (void)key;
  VP_CHECK(0, "no logger's level is removed");
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_hash_map_set(rcutils_hash_map_t * m, const void * key, const void * value)
{
  (void)m;
  g_sets++;
  g_set_key = *(const char * const *)key;
  if (g_set_key != name) {(void)vp_key_len(key);}
  VP_CHECK(VP_IMP(!g_exists, g_set_key != name && g_last == L), "a new entry keeps a copy of the whole name");
  if (g_set_fails) {return RCUTILS_RET_BAD_ALLOC;}
  g_set_level = *(const int *)value;
  return RCUTILS_RET_OK;
}
static int vp_strncmp(const char * a, const char * b, size_t n)
{
  VP_CHECK(a == name && n == L && b == g_key, "the name is compared with a key of the map");
  return vp_bool() && __CPROVER_OBJECT_SIZE(g_key) > n ? 0 : 1;
}
#define strncmp vp_strncmp
#define VP_LOOP_rcutils_logging_set_logger_level_0 \
  __CPROVER_assigns(key, tmp_level, hash_map_ret, g_left, g_ended) \
  __CPROVER_loop_invariant(g_left <= VP_MAXOBJ) __CPROVER_loop_invariant((hash_map_ret == RCUTILS_RET_OK && key == g_key && (tmp_level & 1) && !g_ended) || (hash_map_ret == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES && g_left == 0 && g_ended)) \
  __CPROVER_decreases(g_left + (g_ended ? 0 : 1))
#define VP_BODY_rcutils_logging_set_logger_level_0 VP_CHECK(key == g_key, "current key"); key = g_key;
#endif

#ifdef LP_CALL
static rcutils_time_point_value_t g_now;
static bool g_now_ok;
static int g_calls;
static const rcutils_log_location_t * g_loc;
static const char * g_fmt;
static int g_a1;
static const char * g_a2;
rcutils_ret_t rcutils_system_time_now(rcutils_time_point_value_t * t)
{
  if (!g_now_ok) {return RCUTILS_RET_ERROR;}
  *t = g_now;
  return RCUTILS_RET_OK;
}
// whether the logger is enabled is decided by rcutils_logging_logger_is_enabled_for (C16); here over an
// empty map, so that the default level, which is arbitrary, decides
static bool g_map_err;
rcutils_ret_t rcutils_hash_map_get_size(const rcutils_hash_map_t * m, size_t * size)
{
  if (g_map_err) {return RCUTILS_RET_ERROR;}
  *size = 0;
  return RCUTILS_RET_OK;
}
static void vp_handler(const rcutils_log_location_t * location, int severity, const char * nm, rcutils_time_point_value_t ts, const char * format, va_list * args)
{
  g_calls++;
  VP_CHECK(location == g_loc && severity == g_sev_arg && format == g_fmt, "location, severity and format are passed unaltered");
  VP_CHECK(g_name_arg != NULL ? nm == g_name_arg : (nm != NULL && nm[0] == 0), "the name is passed unaltered; no name becomes the empty one");
  VP_CHECK(ts == g_now, "the time of the call is passed");
  VP_CHECK(va_arg(*args, int) == g_a1, "the first argument is passed");
  VP_CHECK(va_arg(*args, const char *) == g_a2, "the second argument is passed");
}
static void vp_handler2(const rcutils_log_location_t * location, int severity, const char * nm, rcutils_time_point_value_t ts, const char * format, va_list * args)
{
  VP_CHECK(0, "a handler no longer installed is called");
}
#endif

#ifdef LP_SEV
#define UP(c) ((char)((c) >= 'a' && (c) <= 'z' ? (c) - 'a' + 'A' : (c)))
static int vp_toupper(int c)
{
  VP_CHECK(c >= 0 && c <= 255, "toupper of an unsigned char value");
  return c >= 'a' && c <= 'z' ? c - 'a' + 'A' : c;
}
#undef toupper
#define toupper vp_toupper
char * rcutils_strdup(const char * s, rcutils_allocator_t a)
{
  VP_CHECK(s == name, "the string is copied");
  char * p = (char *)vp_allocate(L + 1, a.state);
  if (p == NULL) {return NULL;}
  for (size_t j = 0; j < 6; ++j) {if (j < L) {p[j] = s[j];}}
  p[L] = 0;
  g_dup = p;
  return p;
}
// strcmp of a severity name (at most 5 characters) and the upper-case copy
static int vp_strcmp(const char * a, const char * b)
{
  VP_CHECK((a == g_dup) != (b == g_dup), "a severity name is compared with the upper-case copy");
  const char * lit = a == g_dup ? b : a;
  for (size_t j = 0; j < 6; ++j) {
    if (lit[j] != g_dup[j]) {return 1;}
    if (lit[j] == 0) {return 0;}
  }
  return 1;
}
#define strcmp vp_strcmp
#define VP_LOOP_rcutils_logging_severity_level_from_string_0 \
  __CPROVER_assigns(i, __CPROVER_object_whole(severity_string_upper)) \
  __CPROVER_loop_invariant(i <= L && severity_string_upper[L] == 0) \
  __CPROVER_loop_invariant(VP_IMP(0 < L, severity_string_upper[0] == (0 < i ? UP(name[0]) : name[0]))) \
  __CPROVER_loop_invariant(VP_IMP(1 < L, severity_string_upper[1] == (1 < i ? UP(name[1]) : name[1]))) \
  __CPROVER_loop_invariant(VP_IMP(2 < L, severity_string_upper[2] == (2 < i ? UP(name[2]) : name[2]))) \
  __CPROVER_loop_invariant(VP_IMP(3 < L, severity_string_upper[3] == (3 < i ? UP(name[3]) : name[3]))) \
  __CPROVER_loop_invariant(VP_IMP(4 < L, severity_string_upper[4] == (4 < i ? UP(name[4]) : name[4]))) \
  __CPROVER_loop_invariant(VP_IMP(5 < L, severity_string_upper[5] == (5 < i ? UP(name[5]) : name[5]))) \
  __CPROVER_decreases(L - i)
#endif

#ifdef LP_CONSOLE
#undef fileno
static FILE * g_stream;
static bool g_tty;
static int g_tty_asked;
static int vp_fileno(FILE * f) {return f == g_stream ? 5 : -1;}
static int vp_isatty(int fd)
{
  VP_CHECK(fd == 5, "the configured stream is examined");
  g_tty_asked++;
  return g_tty;
}
#define fileno vp_fileno
#define isatty vp_isatty
static rcutils_char_array_t * g_msg, * g_out;   // the two buffers of the handler
static char * g_msg_buf, * g_out_buf;
static int g_stage;                              // what the output holds: 0 nothing, 1 colour, 2 +text, 3 +reset
static bool g_coloured;
static int g_writes, g_fini_msg, g_fini_out;
static bool g_failed;
static const rcutils_log_location_t * g_loc;
static rcutils_time_point_value_t g_ts;
static const char * g_fmt, * g_colour;
static va_list g_ap;
static void vp_is_out(rcutils_char_array_t * a)
{
  VP_CHECK(a != g_msg, "the output is not built in the message's buffer");
  if (g_out == NULL) {g_out = a;}
  VP_CHECK(a == g_out, "the output is built in one buffer");
  VP_CHECK(a->allocator.allocate == vp_allocate && a->allocator.state == &g_al_state && a->buffer_capacity >= 1, "a usable buffer");
}
rcutils_ret_t rcutils_char_array_vsprintf(rcutils_char_array_t * a, const char * format, va_list args)
{
  VP_CHECK(format == g_fmt && g_msg == NULL && a != g_out, "the message is formatted once, into its own buffer");
  VP_CHECK(a->allocator.allocate == vp_allocate && a->allocator.state == &g_al_state && a->buffer_capacity == 1024 && !a->owns_buffer, "a usable buffer");
  g_msg = a;
  if (vp_bool()) {g_failed = true; return RCUTILS_RET_BAD_ALLOC;}
  if (vp_bool()) {a->buffer = g_msg_buf; a->owns_buffer = true;} else {g_msg_buf = a->buffer;}
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_char_array_strncat(rcutils_char_array_t * a, const char * s, size_t n)
{
  vp_is_out(a);
  if (g_stage == 0) {
    VP_CHECK(g_coloured && n == 5 - (g_colour[2] == '0' ? 1 : 0) && s[0] == g_colour[0] && s[1] == g_colour[1] && s[2] == g_colour[2] && s[3] == g_colour[3] && (n < 5 || s[4] == g_colour[4]),
      "the line starts with the colour of the severity");
    g_stage = 1;
  } else {
    VP_CHECK(g_coloured && g_stage == 2 && n == 4 && s[0] == '\033' && s[1] == '[' && s[2] == '0' && s[3] == 'm', "and ends with the colour reset");
    g_stage = 3;
  }
  if (vp_bool()) {g_failed = true; return RCUTILS_RET_BAD_ALLOC;}
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_char_array_fini(rcutils_char_array_t * a)
{
  if (a == g_msg || (g_msg == NULL && a != g_out && g_fini_msg == 0)) {g_fini_msg++;} else {g_fini_out++;}
  return RCUTILS_RET_OK;
}
static int vp_fprintf(FILE * f, const char * fmt, const char * s)
{
  VP_CHECK(f == g_stream, "the configured stream is written");
  VP_CHECK(fmt[0] == '%' && fmt[1] == 's' && fmt[2] == '\n' && fmt[3] == 0 && s == g_out_buf, "the output and a newline");
  VP_CHECK(g_stage == (g_coloured ? 3 : 2) && !g_failed, "the output is complete");
  g_writes++;
  return 0;
}
#define fprintf vp_fprintf
#endif

#ifdef LP_INIT
static struct {char v[4]; bool fail; const char * name;} g_env[5] = {
  {.name = "RCUTILS_CONSOLE_STDOUT_LINE_BUFFERED"}, {.name = "RCUTILS_LOGGING_USE_STDOUT"}, {.name = "RCUTILS_LOGGING_BUFFERED_STREAM"},
  {.name = "RCUTILS_COLORIZED_OUTPUT"}, {.name = "RCUTILS_CONSOLE_OUTPUT_FORMAT"}};
const char * rcutils_get_env(const char * n, const char ** value)
{
  int i = n[8] == 'C' ? (n[16] == 'S' ? 0 : n[9] == 'O' && n[10] == 'N' && n[16] == 'O' ? 4 : 3) : (n[16] == 'U' ? 1 : 2);
  const char * w = g_env[i].name;
  for (int k = 0; k < 40; ++k) {
    VP_CHECK(n[k] == w[k], "only the documented environment variables are read");
    if (w[k] == 0) {break;}
  }
  if (g_env[i].fail) {return "failed";}
  *value = g_env[i].v;
  return NULL;
}
// strcmp of a value with "", "0" or "1"
static int vp_strcmp(const char * a, const char * b)
{
  if (a[0] != b[0]) {return 1;}
  if (a[0] == 0) {return 0;}
  return a[1] != b[1];
}
#define strcmp vp_strcmp
static struct {int calls; FILE * f; int mode; bool fail;} g_vbuf;
static int vp_setvbuf(FILE * f, char * b, int mode, size_t n)
{
  VP_CHECK(b == NULL, "the stream allocates its own buffer");
  g_vbuf.calls++;
  g_vbuf.f = f;
  g_vbuf.mode = mode;
  return g_vbuf.fail ? -1 : 0;
}
#define setvbuf vp_setvbuf
static FILE g_so, g_se;
#undef stdout
#undef stderr
#define stdout (&g_so)
#define stderr (&g_se)
void rcutils_strerror(char * b, size_t n) {b[0] = 0;}
static bool g_map_fail;
static int g_map_inits, g_formats, g_parses;
rcutils_hash_map_t rcutils_get_zero_initialized_hash_map(void)
{
  rcutils_hash_map_t m = {0};
  return m;
}
size_t rcutils_hash_map_string_hash_func(const void * k) {return 0;}
int rcutils_hash_map_string_cmp_func(const void * a, const void * b) {return 0;}
rcutils_ret_t rcutils_hash_map_init(rcutils_hash_map_t * m, size_t cap, size_t ks, size_t ds, rcutils_hash_map_key_hasher_t h, rcutils_hash_map_key_cmp_t c, const rcutils_allocator_t * a)
{
  VP_CHECK(m->impl == NULL && cap > 0 && ks == sizeof(char *) && ds == sizeof(int), "a map from names to levels");
  VP_CHECK(h == rcutils_hash_map_string_hash_func && c == rcutils_hash_map_string_cmp_func, "keys are strings");
  VP_CHECK(a->allocate == vp_allocate && a->state == &g_al_state, "the given allocator");
  if (g_map_fail) {return RCUTILS_RET_BAD_ALLOC;}
  g_map_inits++;
  return RCUTILS_RET_OK;
}
static const char * g_format_arg;
#endif

#ifdef LP_FINI
static size_t g_left;        // entries of the map
static char g_keyobj;        // the key handed out last
static bool g_handed, g_handed_unset;
static void vp_dealloc_key(void * p, void * state)
{
  VP_CHECK(p == &g_keyobj && state == &g_al_state, "the name just removed is released, by the logging system's allocator");
  VP_CHECK(g_handed && g_handed_unset && g_al.live > 0, "released after it is removed from the map, once");
  g_handed = false;
  g_al.live--;
}
static int g_map_finis;
static bool g_fini_fails;
rcutils_ret_t rcutils_hash_map_get_next_key_and_data(const rcutils_hash_map_t * m, const void * prev, void * key, void * data)
{
  VP_CHECK(prev == NULL && g_map_finis == 0, "the first entry is asked for");
  if (g_left == 0) {return RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES;}
  g_handed = true;
  g_handed_unset = false;
  *(char **)key = &g_keyobj;
  *(int *)data = (int)vp_nd(50);
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_hash_map_unset(rcutils_hash_map_t * m, const void * key)
{
  VP_CHECK(g_handed && !g_handed_unset && *(char * const *)key == &g_keyobj && g_left > 0, "the entry just found is removed, while its key is still there");
  g_handed_unset = true;
  g_left--;
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_hash_map_fini(rcutils_hash_map_t * m)
{
  VP_CHECK(g_left == 0, "the map is empty when it is finalized");
  g_map_finis++;
  return g_fini_fails ? RCUTILS_RET_ERROR : RCUTILS_RET_OK;
}
#define VP_LOOP_rcutils_logging_shutdown_0 \
  __CPROVER_assigns(hash_map_ret, key, level, g_left, g_handed, g_handed_unset, g_al.live) \
  __CPROVER_loop_invariant(g_al.live == g_left) \
  __CPROVER_loop_invariant(hash_map_ret == RCUTILS_RET_OK ? (g_left > 0 && key == &g_keyobj && g_handed && !g_handed_unset) : (hash_map_ret == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES && g_left == 0)) \
  __CPROVER_decreases(g_left)
#define VP_BODY_rcutils_logging_shutdown_0 VP_CHECK(key == &g_keyobj, "current key"); key = &g_keyobj;
#endif


#ifdef LP_CREATE
#define FMAX 2047
// the specification: element starts and their places G_out in the decoded format.  At a start i the
// element is an escape sequence or one character; its length and decoded length give the next start.
static uint16_t * G_out;     // NOT: no element starts here
#define NOT 0xffff
#define G_st(i) (G_out[i] != NOT)
static size_t lim;           // characters of the format that are used
static size_t e, fin;        // witness: an element; the first start at or after lim
static bool hex(const char * s) {return s[1] == 'x' && s[2] == '1' && s[3] == 'b';}
static char esc(char c) {return c == 'a' ? '\a' : c == 'b' ? '\b' : c == 'n' ? '\n' : c == 'r' ? '\r' : c == 't' ? '\t' : 0;}
static size_t el_len(size_t i) {return name[i] != '\\' ? 1 : hex(name + i) ? 4 : esc(name[i + 1]) || i + 1 < lim ? 2 : 1;}
#define HEX(i) (name[(i) + 1] == 'x' && name[(i) + 2] == '1' && name[(i) + 3] == 'b')
#define ESC(c) ((char)((c) == 'a' ? '\a' : (c) == 'b' ? '\b' : (c) == 'n' ? '\n' : (c) == 'r' ? '\r' : (c) == 't' ? '\t' : 0))
#define el_out(i) ((size_t)(name[i] == '\\' && !HEX(i) && !ESC(name[(i) + 1]) && (i) + 1 < lim ? 2 : 1))
#define el_dec(i) ((char)(name[i] != '\\' ? name[i] : HEX(i) ? '\x1b' : ESC(name[(i) + 1]) ? ESC(name[(i) + 1]) : '\\'))
// an instance of the definition, at i
static void vp_step(size_t i)
{
  size_t n = el_len(i);
  VP_ASSUME(G_out[i] == NOT || G_out[i] <= i);       // decoding never lengthens the format
  VP_ASSUME(G_out[i + n] == NOT || G_out[i + n] <= i + n);
  VP_ASSUME(VP_IMP(G_st(i) && i < lim, G_out[i + n] == G_out[i] + el_out(i)));
  VP_ASSUME(VP_IMP(G_st(i) && i < lim, (n < 2 || !G_st(i + 1)) && (n < 4 || (!G_st(i + 2) && !G_st(i + 3)))));
}
// of the witness, fixed before the call: its place, decoded text and length
static size_t e_at, e_out;
static char e_dec, e_dec2;
static char g_rcutils_logging_output_format_string[FMAX + 1];
#define DONE(d) (g_rcutils_logging_output_format_string[e_at] == e_dec && \
  VP_IMP(e_out == 2, g_rcutils_logging_output_format_string[e_at + 1] == e_dec2) && e_at + e_out <= (d))
// what the search for the next back slash gives, over the specification: everything before it is
// elements of one character (lf_lemma proves it from the contract of findn)
size_t contract_findn(const char * s, char c, size_t n)
__CPROVER_requires(__CPROVER_same_object(s, name) && (size_t)(s - name) <= lim && n == lim - (size_t)(s - name) && c == '\\')
__CPROVER_requires(G_st(s - name) && (size_t)(s - name) <= fin)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == SIZE_MAX || (__CPROVER_return_value < n && s[__CPROVER_return_value] == c))
__CPROVER_ensures((__CPROVER_return_value == SIZE_MAX ? n : __CPROVER_return_value) <= fin - (size_t)(s - name))
__CPROVER_ensures(G_out[(size_t)(s - name) + (__CPROVER_return_value == SIZE_MAX ? n : __CPROVER_return_value)] == G_out[s - name] + (__CPROVER_return_value == SIZE_MAX ? n : __CPROVER_return_value))
__CPROVER_ensures(VP_IMP(e >= (size_t)(s - name) && e - (size_t)(s - name) < (__CPROVER_return_value == SIZE_MAX ? n : __CPROVER_return_value), e_at == G_out[s - name] + (e - (size_t)(s - name)) && name[e] != '\\'))
;
#ifdef LP_LEMMA
size_t vp_findn(const char * s, char c, size_t n)
{
  size_t i = (size_t)(s - name);
  size_t r = (size_t)vp_nd(SIZE_MAX);
  VP_ASSUME(r == SIZE_MAX || (r < n && s[r] == c));
  size_t end = r == SIZE_MAX ? lim : i + r;
  size_t j = i;
  while (j < end)
  __CPROVER_assigns(j)
  __CPROVER_loop_invariant(i <= j && j <= end && G_st(j) && G_out[j] == G_out[i] + (j - i) && j <= fin)
  __CPROVER_loop_invariant(VP_IMP(e >= i && e < j, e_at == G_out[i] + (e - i) && name[e] != '\\'))
  __CPROVER_decreases(end - j)
  {
    VP_ASSUME(name[j] != c);      // the contract of findn, at j
    vp_step(j);
    j++;
  }
  return r;
}
#endif
size_t rcutils_findn(const char * s, char c, size_t n);
// memcpy into the decoded format: the witness bytes are copied or kept, the others arbitrary
#undef memcpy
static void * vp_memcpy_format(void * dst, const void * src, size_t n)
{
  char * B = g_rcutils_logging_output_format_string;
  VP_CHECK(__CPROVER_r_ok(src, n) && __CPROVER_same_object(dst, B) && (char *)dst >= B && (size_t)((char *)dst - B) + n <= FMAX, "copied into the decoded format, inside it");
  size_t off = (size_t)((char *)dst - B);
  char b1 = e_at >= off && e_at - off < n ? ((const char *)src)[e_at - off] : B[e_at];
  char b2 = e_at + 1 >= off && e_at + 1 - off < n ? ((const char *)src)[e_at + 1 - off] : B[e_at + 1];
  __CPROVER_havoc_object(B);
  B[e_at] = b1;
  B[e_at + 1] = b2;
  vp_step((size_t)((const char *)src - name) + n);
  return dst;
}
#define memcpy vp_memcpy_format
#define VP_LOOP_create_format_string_0 \
  __CPROVER_assigns(i, dest_buffer_index, back_slash_index, __CPROVER_object_whole(g_rcutils_logging_output_format_string)) \
  __CPROVER_loop_invariant(i <= fin) \
  __CPROVER_loop_invariant(dest_buffer_index == G_out[i] && dest_buffer_index <= i && dest_buffer_index <= lim) \
  __CPROVER_loop_invariant(VP_IMP(e < i, DONE(dest_buffer_index))) \
  __CPROVER_decreases(fin - i)
#endif

#ifdef LP_PARSE
#define NONE 0xffff
#define IN g_rcutils_logging_output_format_string
// the specification: element starts G_st; at a start i the element is a token (an opening brace, a known
// token's name, the next closing brace), or one literal character
static bool * G_st;
static uint16_t * G_q;       // the first closing brace at or after i, or NONE
static unsigned char * G_tok;// the token whose name is between i and G_q[i] (1 + index), or 0
static size_t size, e;       // length of the format; witness: an element start
static size_t g_pos;         // the format up to here has handlers
static bool g_full;
static size_t g_src, g_n;    // the candidate token's text
static char * g_tokbuf;
static const char * g_in;    // the format
static char vp_in(size_t i) {return g_in[i];}
#define is_tok(i) (g_in[i] == '{' && G_q[i] != NONE && G_tok[i] != 0)
static size_t el_len(size_t i) {return is_tok(i) ? G_q[i] - i + 1 : 1;}
static void vp_step(size_t i)
{
  VP_ASSUME(G_q[i] == NONE || (G_q[i] >= i && G_q[i] < size && vp_in(G_q[i]) == '}'));
  VP_ASSUME(G_tok[i] <= 9);
  VP_ASSUME(VP_IMP(G_st[i] && i < size, G_st[i + el_len(i)]));
}
size_t rcutils_find(const char * s, char c)
{
  VP_CHECK(__CPROVER_same_object(s, g_in) && (size_t)(s - g_in) <= size && (c == '{' || c == '}'), "the rest of the format is searched for a brace");
  size_t i = (size_t)(s - g_in);
  size_t r = (size_t)vp_nd(SIZE_MAX);
  VP_ASSUME(r == SIZE_MAX || (r < size - i && s[r] == c));
  // lemma: what is passed over are literal characters
  size_t end = r == SIZE_MAX ? size : c == '{' ? i + r : i;
  size_t j = i;
  while (j < end)
  __CPROVER_assigns(j)
  __CPROVER_loop_invariant(i <= j && j <= end && VP_IMP(G_st[i], G_st[j]))
  __CPROVER_loop_invariant(VP_IMP(e >= i && e < j, !is_tok(e)))
  __CPROVER_decreases(end - j)
  {
    VP_ASSUME(vp_in(j) != c);     // the contract of find, at j
    if (c == '}') {VP_ASSUME(G_q[j] == NONE);}   // and so no closing brace follows j
    vp_step(j);
    j++;
  }
  if (i < size) {
    if (c == '}') {VP_ASSUME(G_q[i] == (r == SIZE_MAX ? NONE : i + r));}
    vp_step(i);
    VP_ASSUME(VP_IMP(c == '{' && r != 0, vp_in(i) != '{'));
  }
  return r;
}
#undef memcpy
static void * vp_memcpy_token(void * dst, const void * src, size_t n)
{
  VP_CHECK(__CPROVER_same_object(src, g_in) && (const char *)src > g_in && (size_t)((const char *)src - g_in) + n <= size, "the candidate's text lies in the format");
  VP_CHECK(__CPROVER_w_ok(dst, n + 1), "and fits, with its terminator");
  g_src = (size_t)((const char *)src - g_in);
  g_n = n;
  g_tokbuf = (char *)dst;
  vp_slice_copy(dst, src, n);
  return dst;
}
#define memcpy vp_memcpy_token
#define VP_LOOP_parse_and_create_handlers_list_0 \
  __CPROVER_assigns(i, g_pos, g_full, g_src, g_n, g_tokbuf) \
  __CPROVER_loop_invariant(i <= size && G_st[i] && g_pos == i && !g_full) \
  __CPROVER_decreases(size - i)
#endif

#ifdef LP_TOKEN
// strcmp of a token's name and a text: decided by the first difference
static int vp_strcmp(const char * a, const char * b)
{
  for (int k = 0; k < 20; ++k) {
    if (a[k] != b[k]) {return 1;}
    if (a[k] == 0) {return 0;}
  }
  VP_CHECK(0, "token names are shorter than 20 characters");
  return 1;
}
#define strcmp vp_strcmp
#endif

#ifdef LP_RENDER
static size_t g_cnt;
static bool g_failed;
static void * vp_hp;
static const rcutils_log_location_t * g_loc;
static const char * g_msg_text;
static rcutils_time_point_value_t g_ts;
static rcutils_char_array_t g_out;
#define VP_LOOP_rcutils_logging_format_message_0 \
  __CPROVER_assigns(i, g_cnt, g_failed) \
  __CPROVER_loop_invariant(i <= g_num_log_msg_handlers && g_cnt == i && !g_failed) \
  __CPROVER_decreases(g_num_log_msg_handlers - i)
#define VP_BODY_rcutils_logging_format_message_0 VP_ASSUME((void *)g_handlers[i].handler == vp_hp);
#endif

#ifdef LP_EXPAND
#include "rcutils/snprintf.h"
static rcutils_char_array_t g_out;
static const char * g_cat;   // the text appended
static size_t g_cat_n;
static int g_cats;
static bool g_cat_fails, g_time_fails;
static int g_time_kind;      // 1 date, 2 seconds, 3 nanoseconds
static const rcutils_time_point_value_t * g_tp;
static size_t g_line, g_num_len;
static char g_num[40], g_got[40];
static bool g_num_used, g_snprintf_fails;
rcutils_ret_t rcutils_char_array_strncat(rcutils_char_array_t * a, const char * s, size_t n)
{
  VP_CHECK(a == &g_out && s != NULL, "text is appended to the output");
  g_cats++;
  g_cat = s;
  g_cat_n = n;
  return g_cat_fails ? RCUTILS_RET_BAD_ALLOC : RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_char_array_strcat(rcutils_char_array_t * a, const char * s)
{
  VP_CHECK(a == &g_out && s != NULL, "text is appended to the output");
  g_cats++;
  g_cat = s;
  g_cat_n = SIZE_MAX;
  if (g_num_used) {for (int k = 0; k < 10; ++k) {g_got[k] = s[k]; if (s[k] == 0) {break;}}}
  return g_cat_fails ? RCUTILS_RET_BAD_ALLOC : RCUTILS_RET_OK;
}
static rcutils_ret_t vp_time(const rcutils_time_point_value_t * t, char * s, size_t n, int kind)
{
  g_time_kind = kind;
  g_tp = t;
  VP_CHECK(n >= 32 && __CPROVER_w_ok(s, n), "room for any time");
  if (g_time_fails) {return RCUTILS_RET_ERROR;}
  g_num_used = true;
  for (int k = 0; k < 10; ++k) {s[k] = g_num[k];}
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_time_point_value_as_date_string(const rcutils_time_point_value_t * t, char * s, size_t n) {return vp_time(t, s, n, 1);}
rcutils_ret_t rcutils_time_point_value_as_seconds_string(const rcutils_time_point_value_t * t, char * s, size_t n) {return vp_time(t, s, n, 2);}
rcutils_ret_t rcutils_time_point_value_as_nanoseconds_string(const rcutils_time_point_value_t * t, char * s, size_t n) {return vp_time(t, s, n, 3);}
static int vp_snprintf(char * b, size_t n, const char * fmt, size_t line)
{
  VP_CHECK(fmt[0] == '%' && fmt[1] == 'z' && fmt[2] == 'u' && fmt[3] == 0 && n >= 10 && line == g_line, "the line number, with room for 9 digits");
  if (g_snprintf_fails) {return -1;}
  g_num_used = true;
  for (int k = 0; k < 10; ++k) {b[k] = g_num[k];}
  return 1;
}
#undef rcutils_snprintf
#define rcutils_snprintf vp_snprintf
#endif

#include "logging.c"

rcutils_ret_t contract_init(rcutils_allocator_t allocator)
__CPROVER_requires(!g_rcutils_logging_initialized)
__CPROVER_assigns(g_rcutils_logging_initialized, g_rcutils_logging_severities_map_valid)
__CPROVER_ensures(g_rcutils_logging_initialized == (__CPROVER_return_value == RCUTILS_RET_OK))
__CPROVER_ensures(g_rcutils_logging_severities_map_valid == (__CPROVER_return_value == RCUTILS_RET_OK))
;
static int g_eff;
int contract_effective(const char * n)
__CPROVER_requires(n == name)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == g_eff)
;

static void any_state(void)
{
  g_default_alloc_ok = true;   // initialization on first use
  AL = vp_allocator(vp_bool());
  g_rcutils_logging_allocator = AL;
  g_rcutils_logging_initialized = vp_bool();
  g_rcutils_logging_severities_map_valid = g_rcutils_logging_initialized;
  g_rcutils_logging_default_logger_level = (int)vp_nd(UINT32_MAX);
  L = (size_t)vp_nd(VP_MAXOBJ);
  name = vp_input_str(L, 0);
  g_w = (size_t)vp_nd(VP_MAXOBJ);
}

#ifdef LP_EFFECTIVE
void h_lv_effective(void)
{
  any_state();
  // initialization may have to be done first; when it fails there is no map
  g_map_ok = g_rcutils_logging_initialized;
  if (!g_map_ok) {
    VP_CHECK(rcutils_logging_get_logger_effective_level(NULL) == -1, "a null name is refused");
    g_map_ok = g_rcutils_logging_initialized;
    g_map_size = 0;
    int r = rcutils_logging_get_logger_effective_level(name);
    VP_ASSUME(g_map_ok == g_rcutils_logging_initialized);
    VP_CHECK(r == (g_map_ok ? g_rcutils_logging_default_logger_level : -1), "without any level set: the default; without a map: an error");
    VP_REACH("not initialized");
    return;
  }
  int deflt = g_rcutils_logging_default_logger_level;
  g_map_size = (size_t)vp_nd(VP_MAXOBJ);
  g_has_f = vp_bool();
  f = (size_t)vp_nd(L);
  VP_ASSUME(f == L || name[f] == '.');
  f_level = (int)vp_nd(5) * 10;
  VP_ASSUME(f_level != RCUTILS_LOG_SEVERITY_UNSET);
  g_has_e = vp_bool();
  e = (size_t)vp_nd(L);
  VP_ASSUME(e == L || name[e] == '.');
  VP_ASSUME(VP_IMP(g_has_e && g_has_f, e > f));
  VP_ASSUME(VP_IMP(g_has_f, g_map_size > 0));
  int r = rcutils_logging_get_logger_effective_level(name);
  if (g_al.failed) {
    VP_CHECK(r == -1 || (g_has_f && r == f_level), "out of memory is reported as an error");
  } else if (g_map_size == 0) {
    VP_CHECK(r == deflt, "nothing is configured: the default level");
  } else if (g_has_e) {
    VP_CHECK(r == -1, "an error of the map is reported");
  } else if (g_has_f) {
    VP_CHECK(r == f_level, "the level of the nearest configured logger in the hierarchy");
    VP_REACH("configured");
  } else {
    VP_CHECK(r == deflt, "neither the logger nor an ancestor is configured: the default level");
    VP_REACH("not configured");
  }
  VP_CHECK(g_al.live == 0, "nothing leaks");
  VP_CHECK(g_rcutils_logging_default_logger_level == deflt, "the default level is unchanged");
}
#endif

#ifdef LP_GET
void h_lv_get(void)
{
  any_state();
  bool whole = vp_bool();
  size_t n = (size_t)vp_nd(SIZE_MAX);
  if (whole) {n = L;}
  VP_ASSUME(n <= L);
  g_want_len = n;
  g_get_val = (int)vp_nd(50);
  g_get_ret = vp_bool() ? RCUTILS_RET_OK : vp_bool() ? RCUTILS_RET_NOT_FOUND : RCUTILS_RET_ERROR;
  int deflt = g_rcutils_logging_default_logger_level;
  VP_CHECK(rcutils_logging_get_logger_leveln(NULL, n) == -1 && rcutils_logging_get_logger_level(NULL) == -1, "a null name is refused");
  int r = whole ? rcutils_logging_get_logger_level(name) : rcutils_logging_get_logger_leveln(name, n);
  if (n == 0) {
    VP_CHECK(r == deflt, "the empty name stands for the default level");
  } else if (!g_rcutils_logging_severities_map_valid) {
    VP_CHECK(r == RCUTILS_LOG_SEVERITY_UNSET, "without a map no level is set");
  } else if (g_al.failed) {
    VP_CHECK(r == -1, "out of memory is reported as an error");
  } else if (g_get_ret == RCUTILS_RET_OK) {
    VP_CHECK(r == (g_get_val & ~1), "the level set, without its mark");
    VP_REACH("set");
  } else {
    VP_CHECK(r == RCUTILS_LOG_SEVERITY_UNSET, "no level set");
    VP_REACH("unset");
  }
  VP_CHECK(g_al.live == 0, "nothing leaks");
}
#endif

#ifdef LP_SET
void h_lv_set(void)
{
  any_state();
  int level = (int)vp_nd(UINT32_MAX);
  int deflt = g_rcutils_logging_default_logger_level;
  g_exists = vp_bool();
  g_set_fails = vp_bool();
  g_left = (size_t)vp_nd(VP_MAXOBJ);
  size_t kl = (size_t)vp_nd(VP_MAXOBJ);
  g_key = vp_buf(kl + 1);
  VP_ASSUME(VP_IMP(g_exists, g_left > 0));
  VP_CHECK(rcutils_logging_set_logger_level(NULL, level) == RCUTILS_RET_INVALID_ARGUMENT && g_sets == 0, "a null name is refused");
  rcutils_ret_t r = rcutils_logging_set_logger_level(name, level);
  bool valid = level == 0 || level == 10 || level == 20 || level == 30 || level == 40 || level == 50;
  if (!g_rcutils_logging_severities_map_valid || !valid) {
    VP_CHECK(r == (g_rcutils_logging_severities_map_valid ? RCUTILS_RET_INVALID_ARGUMENT : RCUTILS_RET_LOGGING_SEVERITY_MAP_INVALID) && g_sets == 0, "refused, nothing is set");
    VP_CHECK(g_rcutils_logging_default_logger_level == deflt && g_al.live == 0, "no level changes");
    VP_REACH("refused");
  } else if (g_al.failed || g_set_fails) {
    VP_CHECK(r == RCUTILS_RET_ERROR, "a failure is reported");
    VP_CHECK(g_rcutils_logging_default_logger_level == deflt && g_al.live == 0, "no level changes, nothing leaks");
    VP_REACH("failed");
  } else {
    VP_CHECK(r == RCUTILS_RET_OK && g_sets == 1 && g_set_level == (level | 1), "the level is stored once, marked as set by the user");
    VP_CHECK(g_al.live == (g_exists ? 0 : 1), "exactly the copy of a new name is kept");
    VP_CHECK(g_rcutils_logging_default_logger_level == (L == 0 ? level : deflt), "the empty name stands for the default level");
    VP_REACH("set");
  }
}
#endif

#ifdef LP_ENABLED
void h_lv_enabled(void)
{
  any_state();
  int sev = (int)vp_nd(UINT32_MAX);
  bool nn = vp_bool();
  g_eff = (int)vp_nd(UINT32_MAX);
  bool r = rcutils_logging_logger_is_enabled_for(nn ? NULL : name, sev);
  int lvl = nn ? g_rcutils_logging_default_logger_level : g_eff;
  VP_CHECK(r == (sev >= lvl && (nn || lvl != -1)), "enabled exactly when the severity is at least the effective level (without a name: the default level); an error disables");
  VP_REACH("end");
}
#endif

#ifdef LP_CALL
void h_lg_call(void)
{
  any_state();
  bool nn = vp_bool(), direct = vp_bool();
  g_name_arg = nn ? NULL : name;
  g_sev_arg = (int)vp_nd(UINT32_MAX);
  g_now = (rcutils_time_point_value_t)vp_nd(UINT64_MAX);
  g_now_ok = vp_bool();
  rcutils_log_location_t loc;
  g_loc = vp_bool() ? &loc : NULL;
  g_fmt = name;
  g_a1 = (int)vp_nd(UINT32_MAX);
  g_a2 = name;
  g_map_err = vp_bool();
  int lvl = (int)vp_nd(UINT32_MAX);
  VP_ASSUME(lvl != -1);   // the error value of the level functions
  VP_ASSUME(g_rcutils_logging_initialized);
  rcutils_logging_set_default_logger_level(lvl);
  VP_CHECK(rcutils_logging_get_default_logger_level() == (lvl == RCUTILS_LOG_SEVERITY_UNSET ? RCUTILS_LOG_SEVERITY_INFO : lvl), "the default level set is read back; unset restores the default");
  rcutils_logging_set_output_handler(vp_handler2);
  bool none = vp_bool();
  rcutils_logging_set_output_handler(none ? NULL : vp_handler);
  VP_CHECK(rcutils_logging_get_output_handler() == (none ? NULL : vp_handler), "the handler set is read back");
  lvl = rcutils_logging_get_default_logger_level();
  g_enabled = (nn || !g_map_err) && g_sev_arg >= lvl;
  if (direct) {
    rcutils_log_internal(g_loc, g_sev_arg, g_name_arg, g_fmt, g_a1, g_a2);
  } else {
    rcutils_log(g_loc, g_sev_arg, g_name_arg, g_fmt, g_a1, g_a2);
  }
  bool want = (direct || g_enabled) && g_now_ok && !none;
  VP_CHECK(g_calls == (want ? 1 : 0), "the handler is called exactly once when the logger is enabled, and never otherwise");
  if (want) {VP_REACH("called");} else {VP_REACH("not called");}
}
#endif

#ifdef LP_SEV
void h_lg_sev(void)
{
  any_state();
  bool ns = vp_bool(), no = vp_bool(), bad = vp_bool();
  rcutils_allocator_t a = AL;
  if (bad) {a.deallocate = NULL;}
  for (size_t j = 0; j < 6; ++j) {VP_ASSUME(VP_IMP(j < L, name[j] != 0));}
  int was = (int)vp_nd(UINT32_MAX), out = was;
  rcutils_ret_t r = rcutils_logging_severity_level_from_string(ns ? NULL : name, a, no ? NULL : &out);
  VP_CHECK(g_al.live == 0, "nothing leaks");
  if (ns || no || bad) {
    VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && out == was && g_al.calls == 0, "invalid arguments are refused");
    VP_REACH("refused");
    return;
  }
  if (g_al.failed) {
    VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && out == was, "out of memory");
    return;
  }
  static const struct {const char * s; size_t n; int v;} T[6] = {{"UNSET", 5, 0}, {"DEBUG", 5, 10}, {"INFO", 4, 20}, {"WARN", 4, 30}, {"ERROR", 5, 40}, {"FATAL", 5, 50}};
  int want = -1;
  for (size_t t = 0; t < 6; ++t) {
    bool eq = L == T[t].n;
    for (size_t j = 0; j < 5; ++j) {if (eq && j < T[t].n && UP(name[j]) != T[t].s[j]) {eq = false;}}
    if (eq) {want = T[t].v;}
  }
  if (want < 0) {
    VP_CHECK(r == RCUTILS_RET_LOGGING_SEVERITY_STRING_INVALID && out == was, "anything else is refused, the output unchanged");
    VP_REACH("unknown");
  } else {
    VP_CHECK(r == RCUTILS_RET_OK && out == want, "the severity of that name, whatever its case");
    VP_REACH("known");
  }
}
#endif

#ifdef LP_CONSOLE
rcutils_ret_t contract_format(const rcutils_log_location_t * location, int severity, const char * nm, rcutils_time_point_value_t timestamp, const char * msg, rcutils_char_array_t * out)
__CPROVER_requires(location == g_loc && severity == g_sev_arg && nm == name && timestamp == g_ts && msg == g_msg_buf)
__CPROVER_requires(g_stage == (g_coloured ? 1 : 0) && !g_failed && out != g_msg && (g_out == NULL || out == g_out))
__CPROVER_assigns(g_stage, g_failed, g_out, out->buffer)
__CPROVER_ensures(g_stage == 2 && g_failed == (__CPROVER_return_value != RCUTILS_RET_OK))
__CPROVER_ensures(__CPROVER_pointer_equals(g_out, out) && __CPROVER_pointer_equals(out->buffer, g_out_buf))
;
void h_lg_console(void)
{
  any_state();
  bool was_init = g_rcutils_logging_initialized;
  static FILE stream;
  g_stream = &stream;
  g_output_stream = g_stream;
  g_colorized_output = (enum rcutils_colorized_output)vp_nd(2);
  g_tty = vp_bool();
  g_sev_arg = (int)vp_nd(UINT32_MAX);
  rcutils_log_location_t loc;
  g_loc = vp_bool() ? &loc : NULL;
  g_ts = (rcutils_time_point_value_t)vp_nd(UINT64_MAX);
  g_fmt = name;
  g_msg_buf = vp_buf(1);
  g_out_buf = vp_buf(1);
  g_coloured = g_colorized_output == RCUTILS_COLORIZED_OUTPUT_FORCE_ENABLE || (g_colorized_output == RCUTILS_COLORIZED_OUTPUT_AUTO && g_tty);
  bool known = g_sev_arg == 10 || g_sev_arg == 20 || g_sev_arg == 30 || g_sev_arg == 40 || g_sev_arg == 50;
  g_colour = g_sev_arg == 10 ? "\033[32m" : g_sev_arg == 20 ? "\033[0m" : g_sev_arg == 30 ? "\033[33m" : "\033[31m";
  rcutils_logging_console_output_handler(g_loc, g_sev_arg, name, g_ts, g_fmt, &g_ap);
  if (!was_init || !known) {
    VP_CHECK(g_writes == 0 && g_fini_msg == 0 && g_msg == NULL && g_out == NULL, "nothing is written before initialization or for an unknown severity");
    VP_REACH("nothing");
    return;
  }
  VP_CHECK(g_writes == (g_failed ? 0 : 1), "one line is written, none when it could not be built completely");
  VP_CHECK(g_fini_msg == 1 && g_fini_out == 1, "both buffers are released exactly once");
  if (g_writes && g_coloured) {VP_REACH("coloured");}
  if (g_writes && !g_coloured) {VP_REACH("plain");}
}
#endif

#ifdef LP_INIT
void contract_create(const char * f)
__CPROVER_requires(g_formats == 0 && f == g_format_arg)
__CPROVER_assigns(g_formats)
__CPROVER_ensures(g_formats == 1)
;
void contract_parse(void)
__CPROVER_requires(g_formats == 1 && g_parses == 0)
__CPROVER_assigns(g_parses)
__CPROVER_ensures(g_parses == 1)
;
void h_lg_init(void)
{
  any_state();
  g_rcutils_logging_severities_map_valid = g_rcutils_logging_initialized;
  bool was = g_rcutils_logging_initialized;
  int deflt = g_rcutils_logging_default_logger_level;
  rcutils_allocator_t a = AL;
  bool bad = vp_bool();
  if (bad) {a.zero_allocate = NULL;}
  for (int i = 0; i < 5; ++i) {
    g_env[i].fail = vp_bool();
    for (int k = 0; k < 3; ++k) {g_env[i].v[k] = vp_char();}
    g_env[i].v[3] = 0;
  }
  g_vbuf.fail = vp_bool();
  g_map_fail = vp_bool();
  bool own = !g_env[4].fail && g_env[4].v[0] != 0;
  g_format_arg = own ? g_env[4].v : g_rcutils_logging_default_output_format;
  rcutils_ret_t r = rcutils_logging_initialize_with_allocator(a);
  if (was) {
    VP_CHECK(r == RCUTILS_RET_OK && g_formats == 0 && g_map_inits == 0 && g_vbuf.calls == 0 && g_rcutils_logging_default_logger_level == deflt, "initializing twice changes nothing");
    VP_REACH("twice");
    return;
  }
#define V(i) (g_env[i].fail ? -1 : g_env[i].v[0] == 0 ? 2 : g_env[i].v[1] == 0 && g_env[i].v[0] == '0' ? 0 : g_env[i].v[1] == 0 && g_env[i].v[0] == '1' ? 1 : -1)
  bool set_buf = V(2) == 0 || V(2) == 1;
  bool ok = !bad && !g_env[0].fail && V(1) != -1 && V(2) != -1 && !(set_buf && g_vbuf.fail) && V(3) != -1 && !g_map_fail;
  VP_CHECK((r == RCUTILS_RET_OK) == ok, "initialization succeeds exactly when the settings are understood and the map can be made");
  VP_CHECK(g_rcutils_logging_initialized == ok && g_rcutils_logging_severities_map_valid == ok, "a failing initialization leaves logging uninitialized");
  if (!ok) {
    VP_CHECK(g_map_inits == 0, "a failing initialization leaves no map behind");
    VP_REACH("failed");
    return;
  }
  VP_CHECK(g_rcutils_logging_output_handler == &rcutils_logging_console_output_handler && g_rcutils_logging_default_logger_level == RCUTILS_LOG_SEVERITY_INFO,
    "the console handler and the default level are installed");
  VP_CHECK(g_output_stream == (V(1) == 1 ? &g_so : &g_se), "standard error unless standard output is asked for");
  VP_CHECK(g_vbuf.calls == (set_buf ? 1 : 0) && VP_IMP(set_buf, g_vbuf.f == g_output_stream && g_vbuf.mode == (V(2) == 0 ? _IONBF : _IOLBF)), "buffering as asked for");
  VP_CHECK(g_colorized_output == (V(3) == 2 ? RCUTILS_COLORIZED_OUTPUT_AUTO : V(3) == 1 ? RCUTILS_COLORIZED_OUTPUT_FORCE_ENABLE : RCUTILS_COLORIZED_OUTPUT_FORCE_DISABLE), "colours as asked for");
  VP_CHECK(g_formats == 1 && g_parses == 1 && g_map_inits == 1, "the format is decoded and parsed, the map made");
  VP_CHECK(g_rcutils_logging_allocator.allocate == vp_allocate && g_rcutils_logging_allocator.state == &g_al_state, "the given allocator is used from now on");
  VP_REACH("ok");
}
#endif

#ifdef LP_FINI
void h_lg_fini(void)
{
  any_state();
  bool was = g_rcutils_logging_initialized;
  g_num_log_msg_handlers = (size_t)vp_nd(1024);
  size_t handlers = g_num_log_msg_handlers;
  g_left = (size_t)vp_nd(VP_MAXOBJ);
  g_rcutils_logging_allocator.deallocate = vp_dealloc_key;
  g_al.live = g_left;      // the names kept by the map
  g_fini_fails = vp_bool();
  size_t before = g_left;
  rcutils_ret_t r = rcutils_logging_shutdown();
  if (!was) {
    VP_CHECK(r == RCUTILS_RET_OK && g_left == before && g_num_log_msg_handlers == handlers && g_map_finis == 0, "shutting down twice changes nothing");
    VP_REACH("not initialized");
    return;
  }
  VP_CHECK(r == (g_fini_fails ? RCUTILS_RET_LOGGING_SEVERITY_MAP_INVALID : RCUTILS_RET_OK), "result");
  VP_CHECK(g_left == 0 && g_al.live == 0 && g_map_finis == 1, "every name is released exactly once, then the map");
  VP_CHECK(!g_rcutils_logging_initialized && !g_rcutils_logging_severities_map_valid && g_num_log_msg_handlers == 0, "uninitialized again");
  VP_REACH("end");
}
#endif

#ifdef LP_CREATE
static uint16_t any_out[FMAX + 5];
static void lf_state(void)
{
  L = (size_t)vp_nd(VP_MAXOBJ);
  name = vp_input_str(L, 0);
  lim = L < FMAX ? L : FMAX;
  __CPROVER_havoc_object(any_out);
  G_out = any_out;
  e = (size_t)vp_nd(lim);
  fin = lim + (size_t)vp_nd(3);
  VP_ASSUME(G_out[0] == 0);
  VP_ASSUME(e < lim && G_st(e));
  VP_ASSUME(G_out[e] <= FMAX);    // decoding never lengthens the format
  VP_ASSUME(G_st(fin) && VP_IMP(lim < fin, !G_st(lim)) && VP_IMP(lim + 1 < fin, !G_st(lim + 1)) && VP_IMP(lim + 2 < fin, !G_st(lim + 2)));
  e_at = G_out[e];
  e_out = el_out(e);
  e_dec = el_dec(e);
  e_dec2 = e_out == 2 ? name[e + 1] : 0;
  vp_step(e);
}
#ifdef LP_LEMMA
void h_lf_lemma(void)
{
  lf_state();
  size_t i = (size_t)vp_nd(lim);
  VP_ASSUME(G_st(i) && i <= fin);
  (void)vp_findn(name + i, '\\', lim - i);
  VP_REACH("end");
}
#else
void h_lf_create(void)
{
  lf_state();
  create_format_string(name);
  VP_CHECK(DONE(G_out[fin]), "every element of the format is decoded, at its place");
  VP_CHECK(G_out[fin] <= FMAX && g_rcutils_logging_output_format_string[G_out[fin]] == 0, "the decoded format ends after the last element");
  VP_REACH("end");
}
#endif
#endif

#ifdef LP_PARSE
bool contract_add(token_handler handler, size_t start, size_t end)
__CPROVER_requires(g_pos < size && G_st[g_pos] && !g_full)
__CPROVER_requires(handler == copy_from_orig ? (start == g_pos && end > start && end <= size) : (is_tok(g_pos) && handler == tokens[G_tok[g_pos] - 1].handler))
__CPROVER_requires(VP_IMP(handler == copy_from_orig && e >= start && e < end, !is_tok(e)))
__CPROVER_assigns(g_pos, g_full)
__CPROVER_ensures(g_full == !__CPROVER_return_value)
__CPROVER_ensures(g_pos == (g_full ? __CPROVER_old(g_pos) : handler == copy_from_orig ? end : __CPROVER_old(g_pos) + (G_q[__CPROVER_old(g_pos)] - __CPROVER_old(g_pos) + 1)))
;
token_handler contract_token(const char * token)
__CPROVER_requires(token == g_tokbuf && g_src == g_pos + 1 && G_q[g_pos] == g_src + g_n && token[g_n] == 0)
__CPROVER_requires(VP_IMP(g_w < g_n, token[g_w] == vp_in(g_src + g_w)))
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == (G_tok[g_pos] == 0 ? (token_handler)NULL : tokens[G_tok[g_pos] - 1].handler))
;
void h_lf_parse(void)
{
  g_in = g_rcutils_logging_output_format_string;
  __CPROVER_havoc_object(g_rcutils_logging_output_format_string);
  size = (size_t)vp_nd(RCUTILS_LOGGING_MAX_OUTPUT_FORMAT_LEN - 1);
  g_rcutils_logging_output_format_string[size] = 0;
  g_s0.base = g_in;
  g_s0.len = size;
  bool any_st[RCUTILS_LOGGING_MAX_OUTPUT_FORMAT_LEN];
  uint16_t any_q[RCUTILS_LOGGING_MAX_OUTPUT_FORMAT_LEN];
  unsigned char any_tok[RCUTILS_LOGGING_MAX_OUTPUT_FORMAT_LEN];
  G_st = any_st;
  G_q = any_q;
  G_tok = any_tok;
  g_w = (size_t)vp_nd(RCUTILS_LOGGING_MAX_OUTPUT_FORMAT_LEN);
  e = (size_t)vp_nd(size);
  VP_ASSUME(G_st[0] && G_st[e]);
  g_num_log_msg_handlers = (size_t)vp_nd(1024);
  parse_and_create_handlers_list();
  VP_CHECK(g_full || g_pos == size, "the whole format has handlers, in order");
  VP_CHECK(g_num_log_msg_handlers == 0, "no handler of an earlier format remains");
  VP_REACH("end");
}
#endif

#ifdef LP_TOKEN
void h_lf_token(void)
{
  static const struct {const char * s; token_handler h;} T[9] = {
    {"severity", expand_severity}, {"name", expand_name}, {"message", expand_message}, {"function_name", expand_function_name},
    {"file_name", expand_file_name}, {"time", expand_time_as_seconds}, {"date_time_with_ms", expand_time_as_date},
    {"time_as_nanoseconds", expand_time_as_nanoseconds}, {"line_number", expand_line_number}};
  // any text: what is compared are the first characters, up to the longest token's
  char t[24];
  for (int k = 0; k < 23; ++k) {t[k] = vp_char();}
  t[23] = 0;
  token_handler want = NULL;
  for (int k = 0; k < 9; ++k) {if (vp_strcmp(T[k].s, t) == 0) {want = T[k].h;}}
  VP_CHECK(find_token_handler(t) == want, "each documented token has its handler, everything else none");
  VP_REACH("end");
}
void h_lf_add(void)
{
  size_t c = (size_t)vp_nd(1024), a = (size_t)vp_nd(SIZE_MAX), b = (size_t)vp_nd(SIZE_MAX), w = (size_t)vp_nd(1023);
  __CPROVER_havoc_object(g_handlers);
  g_num_log_msg_handlers = c;
  size_t ws = g_handlers[w].start_offset, we = g_handlers[w].end_offset;
  bool r = add_handler(expand_name, a, b);
  VP_CHECK(r == (c < 1024) && g_num_log_msg_handlers == (r ? c + 1 : c), "a handler is added while there is room");
  VP_CHECK(VP_IMP(r, g_handlers[c].handler == expand_name && g_handlers[c].start_offset == a && g_handlers[c].end_offset == b), "with its offsets");
  VP_CHECK(VP_IMP(w < c, g_handlers[w].start_offset == ws && g_handlers[w].end_offset == we), "the others unchanged");
  VP_REACH("end");
}
#endif

#ifdef LP_RENDER
static const char * vp_h(const logging_input_t * in, rcutils_char_array_t * out, size_t start, size_t end)
{
  VP_CHECK(g_cnt < g_num_log_msg_handlers && !g_failed, "handlers in order, until one fails");
  VP_CHECK(in->name == name && in->location == g_loc && in->msg == g_msg_text && in->severity == g_sev_arg && in->timestamp == g_ts, "the message's data");
  VP_CHECK(out == &g_out && start == g_handlers[g_cnt].start_offset && end == g_handlers[g_cnt].end_offset, "the output and the handler's offsets");
  g_cnt++;
  g_failed = vp_bool();
  return g_failed ? NULL : name;
}
void h_lf_render(void)
{
  any_state();
  vp_hp = (void *)vp_h;
  __CPROVER_havoc_object(g_handlers);
  g_num_log_msg_handlers = (size_t)vp_nd(1024);
  rcutils_log_location_t loc;
  g_loc = vp_bool() ? &loc : NULL;
  g_msg_text = name + 1;
  g_ts = (rcutils_time_point_value_t)vp_nd(UINT64_MAX);
  g_sev_arg = (int)vp_nd(UINT32_MAX);
  rcutils_ret_t r = rcutils_logging_format_message(g_loc, g_sev_arg, name, g_ts, g_msg_text, &g_out);
  VP_CHECK(r == (g_failed ? RCUTILS_RET_ERROR : RCUTILS_RET_OK), "an error exactly when a handler fails");
  VP_CHECK(g_failed || g_cnt == g_num_log_msg_handlers, "every part of the format is rendered once");
  VP_REACH("end");
}
#endif

#ifdef LP_EXPAND
static void expect(const char * r, bool ok, const char * text, bool none)
{
  VP_CHECK(g_cats == (none || !ok ? 0 : 1), "exactly one text is appended, none when there is nothing to append");
  VP_CHECK(VP_IMP(g_cats == 1 && text != NULL, g_cat == text && g_cat_n == SIZE_MAX), "the text of the token");
  VP_CHECK((r == NULL) == !(ok && (none || !g_cat_fails)), "failure is reported");
  VP_CHECK(VP_IMP(r != NULL, r == g_out.buffer), "the output is returned");
}
void h_lf_expand(void)
{
  any_state();
  rcutils_log_location_t loc = {.function_name = name, .file_name = name + 1, .line_number = (size_t)vp_nd(SIZE_MAX)};
  VP_ASSUME(L > 2);
  g_line = loc.line_number;
  logging_input_t in = {.name = vp_bool() ? NULL : name, .location = vp_bool() ? NULL : &loc, .msg = name + 2, .severity = (int)vp_nd(UINT32_MAX),
    .timestamp = (rcutils_time_point_value_t)vp_nd(UINT64_MAX)};
  g_out.buffer = name;
  g_cat_fails = vp_bool();
  g_time_fails = vp_bool();
  g_snprintf_fails = vp_bool();
  for (int k = 0; k < 9; ++k) {g_num[k] = vp_char();}
  size_t a = (size_t)vp_nd(2047), b = (size_t)vp_nd(2047);
  VP_ASSUME(a < b);
  int which = (int)vp_nd(9);
  const char * r;
  bool known = in.severity == 0 || in.severity == 10 || in.severity == 20 || in.severity == 30 || in.severity == 40 || in.severity == 50;
  if (which == 0) {
    r = expand_severity(&in, &g_out, a, b);
    expect(r, known, known ? g_rcutils_log_severity_names[in.severity] : NULL, false);
  } else if (which == 1) {
    r = expand_name(&in, &g_out, a, b);
    expect(r, true, in.name, in.name == NULL);
  } else if (which == 2) {
    r = expand_message(&in, &g_out, a, b);
    expect(r, true, in.msg, false);
  } else if (which == 3) {
    r = expand_function_name(&in, &g_out, a, b);
    expect(r, true, loc.function_name, in.location == NULL);
  } else if (which == 4) {
    r = expand_file_name(&in, &g_out, a, b);
    expect(r, true, loc.file_name, in.location == NULL);
  } else if (which == 5) {
    r = expand_line_number(&in, &g_out, a, b);
    if (in.location != NULL && g_snprintf_fails) {
      VP_CHECK(r == NULL && g_cats == 0, "failure is reported");
    } else {
      expect(r, true, NULL, in.location == NULL);
    }
  } else if (which == 6) {
    r = copy_from_orig(&in, &g_out, a, b);
    VP_CHECK(g_cats == 1 && g_cat == g_rcutils_logging_output_format_string + a && g_cat_n == b - a, "the literal text of the format");
    VP_CHECK((r == NULL) == g_cat_fails && VP_IMP(r != NULL, r == g_out.buffer), "failure is reported");
  } else {
    r = which == 7 ? expand_time_as_date(&in, &g_out, a, b) : which == 8 ? expand_time_as_seconds(&in, &g_out, a, b) : expand_time_as_nanoseconds(&in, &g_out, a, b);
    VP_CHECK(g_time_kind == which - 6 && g_tp == &in.timestamp, "the message's time, in the form asked for");
    if (g_time_fails) {
      VP_CHECK(r == NULL && g_cats == 0, "failure is reported");
    } else {
      expect(r, true, NULL, false);
    }
  }
  if (g_num_used && g_cats) {
    bool same = true;
    for (int k = 0; k < 10; ++k) {if (same && g_got[k] != g_num[k]) {VP_CHECK(0, "the number's text is appended");} if (g_num[k] == 0) {same = false;}}
  }
  VP_REACH("end");
}
#endif
#endif  // VP_PROOF
