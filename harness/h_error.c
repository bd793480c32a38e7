// C15: the error state.
//VP unit=er_copy prop=C15,C31 nentry=h_err_api modes=proof defs=-DER_COPY funcs=__rcutils_copy_string
//VP unit=er_line prop=C15,C31 nentry=h_err_api modes=proof defs=-DER_LINE punwind=23 arith=cvc5int funcs=__rcutils_convert_uint64_t_into_c_str replace=__rcutils_reverse_str/contract_rev
//VP unit=er_rev prop=C15,C31 nentry=h_err_api modes=proof defs=-DER_REV funcs=__rcutils_reverse_str loops=__rcutils_reverse_str_0
//VP unit=er_fmt prop=C15,C31 nentry=h_err_api modes=proof solver=cadical arith=cadical split=1 defs=-DER_FMT funcs=__rcutils_format_error_string,__rcutils_copy_string replace=__rcutils_convert_uint64_t_into_c_str/contract_conv
//VP unit=er_set prop=C15,C31 nentry=h_err_api modes=proof solver=cadical defs=-DER_SET funcs=rcutils_set_error_state,__rcutils_copy_string,__same_string,rcutils_error_is_set,rcutils_get_error_state replace=__format_overwriting_error_state_message/contract_over
//VP unit=er_get prop=C15 nentry=h_err_api modes=proof solver=cadical defs=-DER_GET funcs=rcutils_get_error_string,rcutils_reset_error,rcutils_error_is_set,rcutils_get_error_state replace=__rcutils_format_error_string/contract_fmt
//VP unit=er_init prop=C15 nentry=h_err_api modes=proof defs=-DER_INIT funcs=rcutils_initialize_error_handling_thread_local_storage replace=rcutils_set_error_state/contract_set,rcutils_get_error_string/contract_get,rcutils_reset_error/contract_reset
//VP unit=er_over prop=C15,C31 nentry=h_err_api modes=proof defs=-DER_OVER funcs=__format_overwriting_error_state_message,__rcutils_copy_string replace=__rcutils_format_error_string/contract_fmt_any,rcutils_get_error_string/contract_get_any
//VP unit=err_api prop=C15,C31 modes=native funcs=rcutils_set_error_state,rcutils_get_error_state,rcutils_get_error_string,rcutils_reset_error,rcutils_error_is_set,rcutils_initialize_error_handling_thread_local_storage,__rcutils_copy_string,__rcutils_format_error_string,__rcutils_convert_uint64_t_into_c_str,__format_overwriting_error_state_message
//VP trust: strlen, strnlen, strncmp, memmove by their C contracts
//VP trust: thread-local variables are verified as the variables of one thread
#include "vp.h"
#include "vp_str.h"
#include "vp_mem.h"
#include "rcutils/macros.h"
#undef RCUTILS_THREAD_LOCAL
#define RCUTILS_THREAD_LOCAL
#include "rcutils/error_handling.h"
#include "rcutils/snprintf.h"
static size_t g_out;
static void vp_err_out(const char * msg)
{
#ifndef VP_PROOF
  g_out += strlen(msg);
#else
  VP_CHECK(__CPROVER_r_ok(msg, 1), "a string is reported");
#endif
}
#undef RCUTILS_SAFE_FWRITE_TO_STDERR
#define RCUTILS_SAFE_FWRITE_TO_STDERR(msg) vp_err_out(msg)
bool rcutils_allocator_is_valid(const rcutils_allocator_t * a)
{
  return a != NULL && a->allocate != NULL && a->deallocate != NULL && a->reallocate != NULL && a->zero_allocate != NULL;
}
#ifdef VP_PROOF
// the strings in play: message, file and line digits (known lengths), literals, and terminated arrays
static const char * g_msg, * g_file, * g_lbuf;
static size_t g_lm, g_lf, g_ll;
static size_t vp_err_strlen(const char * p)
{
  VP_CHECK(p != NULL, "strlen of a null pointer");
  if (p == g_msg) {return g_lm;}
  if (p == g_file) {return g_lf;}
#ifdef ER_FMT
  if (__CPROVER_OBJECT_SIZE(p) == 21) {
    // the line number's digits
    VP_CHECK(p[g_ll] == 0, "the digits are terminated");
    return g_ll;
  }
#endif
  size_t n = __CPROVER_OBJECT_SIZE(p) - (size_t)__CPROVER_POINTER_OFFSET(p);
  VP_CHECK(n > 0 && n <= 1024, "strlen of a literal or of a terminated array");
  size_t r = (size_t)vp_nd(1023);
#ifdef ER_OVER
  // a string made by the formatting functions: terminated somewhere
  VP_ASSUME(r < n && p[r] == 0);
#else
  r = n - 1;
  VP_CHECK(p[r] == 0, "a literal");
#endif
  return r;
}
#undef strlen
#define strlen vp_err_strlen
#ifdef ER_FMT
// memmove into the string being made: exactly the witness byte is tracked
static rcutils_error_string_t ES;
static rcutils_error_state_t ST;
static void * vp_fmt_move(void * dst, const void * src, size_t n)
{
  VP_CHECK(n == 0 || __CPROVER_r_ok(src, n), "memmove reads inside the source object");
  VP_CHECK(__CPROVER_same_object(dst, &ES) && n <= sizeof ES.str && __CPROVER_POINTER_OFFSET(dst) <= sizeof ES.str - n, "memmove writes inside the error string");
  size_t off = (size_t)__CPROVER_POINTER_OFFSET(dst);
  if (g_w >= off && g_w - off < n) {
    ES.str[g_w] = src == g_msg ? ST.message[g_w - off] : src == g_file ? ST.file[g_w - off] : ((const char *)src)[g_w - off];
  }
  return dst;
}
#undef memmove
#define memmove vp_fmt_move
#undef memcpy
#define memcpy vp_fmt_move
#endif
static size_t vp_err_strnlen(const char * p, size_t max)
{
#ifdef ER_LINE
  VP_CHECK(max <= 21, "within the buffer");
  size_t i = 0;
  while (i < max && p[i] != 0) {++i;}
  return i;
#else
  VP_CHECK(p == g_msg, "of the message");
  return g_lm < max ? g_lm : max;
#endif
}
#define strnlen vp_err_strnlen
static int vp_err_strncmp(const char * a, const char * b, size_t n)
{
  (void)n;
  VP_CHECK(a != NULL && b != NULL, "strncmp of strings");
  return (int)(unsigned)nondet_vp_u64();
}
#define strncmp vp_err_strncmp
#endif
#ifndef VP_PROOF
int rcutils_snprintf(char * b, size_t n, const char * f, ...)
{
  va_list l;
  va_start(l, f);
  int r = vsnprintf(b, n, f, l);
  va_end(l);
  return r;
}
#endif
#ifdef VP_PROOF
static char * g_str, g_b1, g_b2;                   // the string reversed, its bytes at g_w and g_w2, the mirror of g_w
static size_t g_len;
#ifdef ER_LINE
// the digits are those of the quotients: cuts, one division each
static uint64_t g_q[21];
static char g_d[21];
#define VP_BODY___rcutils_convert_uint64_t_into_c_str_0 \
  VP_CHECK(i < 20, "at most 20 digits"); VP_ASSUME(i < 20); \
  VP_CHECK(number == g_q[i], "[arith] the number divided by ten that often"); number = g_q[i]; \
  g_d[i] = (char)(number % 10 + '0');
#endif
#ifdef ER_REV
#define VP_LOOP___rcutils_reverse_str_0 \
  __CPROVER_assigns(i, j, __CPROVER_object_whole(string_in)) \
  __CPROVER_loop_invariant(i < g_len && j < g_len && i + j == g_len - 1 && i <= j + 1) \
  __CPROVER_loop_invariant((g_w < i || g_w > j) ? string_in[g_w] == g_b2 && string_in[g_w2] == g_b1 : string_in[g_w] == g_b1 && string_in[g_w2] == g_b2) \
  __CPROVER_decreases(j - i + 1)
#endif
#endif
#include "error_handling.c"

#ifdef VP_PROOF
static rcutils_error_string_t ES;
static rcutils_error_state_t ST;
static uint64_t g_line;
static char g_digit;                              // the line number's digit at the witness position
static size_t g_dw;
static char g_fc;                                 // byte g_w of the formatted string of the current state
static int g_fmts, g_overs, g_sets, g_resets, g_gets;

void contract_conv(uint64_t number, char * buffer, size_t buffer_size)
__CPROVER_requires(number == g_line && buffer != NULL && buffer_size >= 21 && __CPROVER_w_ok(buffer, 21))
__CPROVER_assigns(__CPROVER_object_upto(buffer, 21))
__CPROVER_ensures(buffer[g_ll] == 0 && VP_IMP(g_dw < g_ll, buffer[g_dw] == g_digit))
;
void contract_over(char * buffer, size_t buffer_size, const rcutils_error_state_t * new_error_state)
__CPROVER_requires(buffer != NULL && buffer_size == 4096 && __CPROVER_w_ok(buffer, buffer_size) && new_error_state != NULL)
__CPROVER_assigns(__CPROVER_object_upto(buffer, 4096))
__CPROVER_ensures(1)
;
void contract_fmt(rcutils_error_string_t * error_string, const rcutils_error_state_t * error_state)
__CPROVER_requires(error_string == &gtls_rcutils_error_string && error_state == &gtls_rcutils_error_state && g_fmts < 4)
__CPROVER_assigns(*error_string, g_fmts)
__CPROVER_ensures(error_string->str[g_w] == g_fc && g_fmts == __CPROVER_old(g_fmts) + 1)
;
void contract_fmt_any(rcutils_error_string_t * error_string, const rcutils_error_state_t * error_state)
__CPROVER_requires(error_string != NULL && error_state == &ST)
__CPROVER_assigns(*error_string)
__CPROVER_ensures(1)
;
rcutils_error_string_t contract_get_any(void)
__CPROVER_requires(1)
__CPROVER_assigns()
__CPROVER_ensures(1)
;
void contract_set(const char * error_string, const char * file, size_t line_number)
__CPROVER_requires(error_string != NULL && file != NULL && g_resets > 0)
__CPROVER_assigns(gtls_rcutils_error_is_set, g_sets)
__CPROVER_ensures(gtls_rcutils_error_is_set == 1 && g_sets == 1)
;
void contract_reset(void)
__CPROVER_requires(g_resets < 4)
__CPROVER_assigns(gtls_rcutils_error_is_set, g_resets)
__CPROVER_ensures(gtls_rcutils_error_is_set == 0 && g_resets == __CPROVER_old(g_resets) + 1)
;
rcutils_error_string_t contract_get(void)
__CPROVER_requires(1)
__CPROVER_assigns()
__CPROVER_ensures(1)
;

void contract_rev(char * string_in, size_t string_len)
__CPROVER_requires(string_in != NULL && string_len <= 20 && string_len == g_len && __CPROVER_w_ok(string_in, string_len + 1) && string_in[string_len] == 0)
__CPROVER_assigns(__CPROVER_object_upto(string_in, string_len))
__CPROVER_ensures(string_in[string_len - 1 - g_w] == __CPROVER_old(string_in[g_w]))
;

#ifdef ER_REV
void h_er_rev(void)
{
  g_len = (size_t)vp_nd(VP_MAXOBJ);
  g_w = (size_t)vp_nd(VP_MAXOBJ);
  VP_ASSUME(VP_IMP(g_len > 0, g_w < g_len));
  g_str = vp_buf(g_len + 1);
  g_w2 = g_len > 0 ? g_len - 1 - g_w : 0;
  if (g_len == 0) {g_w = 0;}
  g_b1 = g_str[g_w]; g_b2 = g_str[g_w2];
  __rcutils_reverse_str(g_str, g_len);
  VP_CHECK(VP_IMP(g_len > 0, g_str[g_w2] == g_b1 && g_str[g_w] == g_b2), "each character goes to its mirror place");
  VP_REACH("reversed");
}
#endif
#ifdef ER_COPY
void h_er_copy(void)
{
  size_t n = (size_t)vp_nd(VP_MAXOBJ), L = (size_t)vp_nd(VP_MAXOBJ);
  VP_ASSUME(n > 0);
  char * dst = vp_buf(n), * src = vp_cstr(L);
  g_msg = src; g_lm = L;
  g_w = (size_t)vp_nd(VP_MAXOBJ);
  VP_ASSUME(g_w < n);
  char was = dst[g_w], c = g_w < L ? src[g_w] : 0;
  size_t r = __rcutils_copy_string(dst, n, src);
  VP_CHECK(r == (L < n ? L : n - 1), "as many characters as fit are copied");
  VP_CHECK(dst[r] == 0, "and terminated");
  VP_CHECK(VP_IMP(g_w < r, dst[g_w] == c), "the characters of the source");
  VP_CHECK(VP_IMP(g_w > r, dst[g_w] == was), "nothing else is written");
  if (r < L) {VP_REACH("truncated");} else {VP_REACH("copied");}
}
#endif

#ifdef ER_LINE
void h_er_line(void)
{
  static const uint64_t lim[21] = {
    UINT64_MAX, 1844674407370955161u, 184467440737095516u, 18446744073709551u, 1844674407370955u, 184467440737095u,
    18446744073709u, 1844674407370u, 184467440737u, 18446744073u, 1844674407u, 184467440u, 18446744u, 1844674u,
    184467u, 18446u, 1844u, 184u, 18u, 1u, 0u};
  // the quotients of the number by the powers of ten; there are at most 20 digits
  g_q[0] = g_line = nondet_vp_u64();
  for (int k = 0; k < 20; ++k) {
    g_q[k + 1] = nondet_vp_u64();
    VP_CHECK(g_q[k] / 10 <= lim[k + 1], "[arith] the quotients get smaller");
    VP_ASSUME(g_q[k + 1] == g_q[k] / 10 && g_q[k + 1] <= lim[k + 1]);
  }
  g_d[0] = '0';
  size_t n = 1;
  while (n < 20 && g_q[n] != 0) {++n;}
  g_len = n;
  g_w = (size_t)vp_nd(20);
  VP_ASSUME(g_w < n);
  char b[21];
  __rcutils_convert_uint64_t_into_c_str(g_line, b, sizeof b);
  VP_CHECK(b[n] == 0, "as many digits as the number has");
  VP_CHECK(b[n - 1 - g_w] == g_d[g_w], "the digits of the number");
  VP_REACH("converted");
}
#endif

#ifdef ER_FMT
void h_er_fmt(void)
{
  g_lm = (size_t)vp_nd(sizeof(ST.message) - 1);
  g_lf = (size_t)vp_nd(sizeof(ST.file) - 1);
  g_ll = (size_t)vp_nd(20);
  VP_ASSUME(g_ll > 0);
  g_msg = ST.message; g_file = ST.file;
  __CPROVER_havoc_object(&ST);
  __CPROVER_havoc_object(&ES);
  g_line = ST.line_number;
  VP_ASSUME(ST.message[g_lm] == 0 && ST.file[g_lf] == 0);
  g_digit = vp_char();
  g_w = (size_t)vp_nd(sizeof(ES.str) - 1);
  size_t p1 = g_lm, p2 = p1 + 5, p3 = p2 + g_lf, p4 = p3 + 1, p5 = p4 + g_ll;
  g_dw = g_w >= p4 ? g_w - p4 : 999;
  g_w2 = g_w;
  char want = g_w < p1 ? ST.message[g_w] : g_w < p2 ? ", at "[g_w - p1] : g_w < p3 ? ST.file[g_w - p2] : g_w < p4 ? ':' : g_w < p5 ? g_digit : 0;
  __rcutils_format_error_string(&ES, &ST);
  VP_CHECK(p5 < sizeof ES.str && ES.str[p5] == 0, "terminated after the line number");
  VP_CHECK(VP_IMP(g_w < p1, ES.str[g_w] == want), "the message first");
  VP_CHECK(VP_IMP(g_w >= p1 && g_w < p2, ES.str[g_w] == want), "then ', at '");
  VP_CHECK(VP_IMP(g_w >= p2 && g_w < p3, ES.str[g_w] == want), "then the file");
  VP_CHECK(VP_IMP(g_w >= p3 && g_w < p4, ES.str[g_w] == want), "then a colon");
  VP_CHECK(VP_IMP(g_w >= p4 && g_w < p5, ES.str[g_w] == want), "then the line number's digits");
  VP_REACH("formatted");
}
#endif

#ifdef ER_SET
void h_er_set(void)
{
  __CPROVER_havoc_object(&gtls_rcutils_error_state);
  __CPROVER_havoc_object(&gtls_rcutils_error_string);
  gtls_rcutils_error_is_set = vp_bool();
  gtls_rcutils_error_string_is_formatted = vp_bool();
  g_lm = (size_t)vp_nd(VP_MAXOBJ); g_lf = (size_t)vp_nd(VP_MAXOBJ);
  unsigned alias = (unsigned)vp_nd(2);
  // the message may be the current error's own
  if (alias == 1) {
    g_msg = gtls_rcutils_error_string.str;
    VP_ASSUME(g_lm < sizeof gtls_rcutils_error_string.str && g_msg[g_lm] == 0);
  } else if (alias == 2) {
    g_msg = gtls_rcutils_error_state.message;
    VP_ASSUME(g_lm < sizeof gtls_rcutils_error_state.message && g_msg[g_lm] == 0);
  } else {
    g_msg = vp_cstr(g_lm);
  }
  if (vp_bool()) {
    g_file = vp_cstr(g_lf);
  } else {
    g_file = gtls_rcutils_error_state.file;
    VP_ASSUME(g_lf < sizeof gtls_rcutils_error_state.file && g_file[g_lf] == 0);
  }
  size_t line = (size_t)nondet_vp_u64();
  rcutils_error_state_t was = gtls_rcutils_error_state;
  bool was_set = gtls_rcutils_error_is_set;
  size_t i = (size_t)vp_nd(sizeof(was.message) - 1), j = (size_t)vp_nd(sizeof(was.file) - 1), k = (size_t)vp_nd(1023);
  char was_string = gtls_rcutils_error_string.str[k];
  g_w = offsetof(rcutils_error_state_t, message) + i;
  g_w2 = offsetof(rcutils_error_state_t, file) + j;
  char cm = i < g_lm ? g_msg[i] : 0, cf = j < g_lf ? g_file[j] : 0;
  bool e1 = vp_bool(), e2 = vp_bool();
  rcutils_set_error_state(e1 ? NULL : g_msg, e2 ? NULL : g_file, line);
  const rcutils_error_state_t * s = rcutils_get_error_state();
  VP_CHECK(s == &gtls_rcutils_error_state, "the calling thread's state is reported");
  if (e1 || e2) {
    VP_CHECK(rcutils_error_is_set() == was_set && s->message[i] == was.message[i] && s->file[j] == was.file[j] && s->line_number == was.line_number && gtls_rcutils_error_string.str[k] == was_string, "without message or file nothing changes");
    VP_REACH("refused");
    return;
  }
  VP_CHECK(rcutils_error_is_set() == true && !gtls_rcutils_error_string_is_formatted, "the error is set");
  size_t nm = g_lm < sizeof(was.message) ? g_lm : sizeof(was.message) - 1, nf = g_lf < sizeof(was.file) ? g_lf : sizeof(was.file) - 1;
  VP_CHECK(s->message[nm] == 0 && VP_IMP(i < nm, s->message[i] == cm), "the message, truncated to its maximum");
  VP_CHECK(s->file[nf] == 0 && VP_IMP(j < nf, s->file[j] == cf), "the file, truncated to its maximum");
  VP_CHECK(s->line_number == line, "the line");
  VP_REACH("set");
}
#endif

#ifdef ER_GET
void h_er_get(void)
{
  __CPROVER_havoc_object(&gtls_rcutils_error_state);
  __CPROVER_havoc_object(&gtls_rcutils_error_string);
  gtls_rcutils_error_is_set = vp_bool();
  gtls_rcutils_error_string_is_formatted = vp_bool();
  g_w = (size_t)vp_nd(sizeof(ES.str) - 1);
  g_fc = vp_char();
  // a string marked as formatted is that of the current state
  VP_ASSUME(VP_IMP(gtls_rcutils_error_string_is_formatted, gtls_rcutils_error_string.str[g_w] == g_fc));
  bool was_set = gtls_rcutils_error_is_set;
  size_t k = (size_t)vp_nd(sizeof(rcutils_error_state_t) - 1);
  unsigned char sb = ((unsigned char *)&gtls_rcutils_error_state)[k];
  if (vp_bool()) {
    rcutils_error_string_t e = rcutils_get_error_string();
    static const char none[] = "error not set";
    VP_CHECK(VP_IMP(was_set, e.str[g_w] == g_fc), "the formatted message, file and line");
    VP_CHECK(VP_IMP(!was_set && g_w < sizeof none, e.str[g_w] == none[g_w < sizeof none ? g_w : 0]), "error not set");
    VP_CHECK(rcutils_error_is_set() == was_set && ((unsigned char *)&gtls_rcutils_error_state)[k] == sb, "asking changes nothing");
    VP_CHECK(VP_IMP(gtls_rcutils_error_string_is_formatted, gtls_rcutils_error_string.str[g_w] == g_fc), "what is kept is the current state's string");
    if (was_set) {VP_REACH("set");} else {VP_REACH("not set");}
  } else {
    rcutils_reset_error();
    const rcutils_error_state_t * s = rcutils_get_error_state();
    VP_CHECK(!rcutils_error_is_set() && !gtls_rcutils_error_string_is_formatted, "after a reset no error is set");
    VP_CHECK(s == &gtls_rcutils_error_state && s->message[0] == 0 && s->file[0] == 0 && s->line_number == 0, "the state is empty");
    VP_REACH("reset");
  }
}
#endif

#ifdef ER_INIT
static void * al1(size_t n, void * s) {(void)n; (void)s; return NULL;}
static void al2(void * p, void * s) {(void)p; (void)s;}
static void * al3(void * p, size_t n, void * s) {(void)p; (void)n; (void)s; return NULL;}
static void * al4(size_t k, size_t n, void * s) {(void)k; (void)n; (void)s; return NULL;}
void h_er_init(void)
{
  rcutils_allocator_t al = {al1, al2, al3, al4, NULL};
  bool bad = vp_bool(), was = vp_bool();
  if (bad) {al.reallocate = NULL;}
  gtls_rcutils_thread_local_initialized = was;
  gtls_rcutils_error_is_set = vp_bool();
  bool was_set = gtls_rcutils_error_is_set;
  rcutils_ret_t r = rcutils_initialize_error_handling_thread_local_storage(al);
  VP_CHECK(r == (!was && bad ? RCUTILS_RET_INVALID_ARGUMENT : RCUTILS_RET_OK), "an invalid allocator is refused");
  if (was || bad) {
    VP_CHECK(gtls_rcutils_thread_local_initialized == was && gtls_rcutils_error_is_set == was_set && g_sets + g_resets == 0, "nothing changes");
    VP_REACH("nothing to do");
  } else {
    VP_CHECK(gtls_rcutils_thread_local_initialized && !gtls_rcutils_error_is_set, "initialized, with no error set");
    VP_REACH("initialized");
  }
}
#endif

#ifdef ER_OVER
void h_er_over(void)
{
  static char buffer[4096];
  g_lm = 1; g_lf = 1;
  __format_overwriting_error_state_message(buffer, sizeof buffer, &ST);
  VP_REACH("formatted");
}
#endif
#endif

#ifdef VP_NATIVE
#define MMAX (RCUTILS_ERROR_STATE_MESSAGE_MAX_LENGTH - 1)
#define FMAX (RCUTILS_ERROR_STATE_FILE_MAX_LENGTH - 1)
static bool set;
static char msg[2048], file[2048];
static uint64_t line;
static size_t lenof(size_t limit)
{
  switch (vp_nd(3)) {
    case 0: return (size_t)vp_nd(3);
    case 1: return limit - 3 + (size_t)vp_nd(6);
    case 2: return (size_t)vp_nd(1100);
    default: return 1020 + (size_t)vp_nd(8);
  }
}
static char * text(size_t n)
{
  char * p = (malloc)(n + 1);
  char c = (char)('A' + (int)vp_nd(25));
  int step = (int)vp_nd(3);
  for (size_t i = 0; i < n; ++i) {p[i] = (char)('A' + (c - 'A' + (int)i * step) % 26);}
  if (n > 0 && vp_bool()) {p[vp_nd(n - 1)] = '%';}
  p[n] = 0;
  return p;
}
static void check_state(void)
{
  char want[4096];
  VP_CHECK(rcutils_error_is_set() == set, "the error is set exactly after setting it");
  if (set) {
    const rcutils_error_state_t * s = rcutils_get_error_state();
    VP_CHECK(s != NULL && strcmp(s->message, msg) == 0, "the message, truncated to its maximum");
    VP_CHECK(strcmp(s->file, file) == 0, "the file, truncated to its maximum");
    VP_CHECK(s->line_number == line, "the line");
    snprintf(want, sizeof want, "%s, at %s:%llu", msg, file, (unsigned long long)line);
  } else {
    snprintf(want, sizeof want, "error not set");
  }
  rcutils_error_string_t e = rcutils_get_error_string();
  VP_CHECK(memchr(e.str, 0, sizeof e.str) != NULL, "the error string is terminated");
  VP_CHECK(strcmp(e.str, want) == 0, "the error string says message, file and line");
}
#endif
void h_err_api(void)
{
#ifdef VP_NATIVE
  size_t ops = (size_t)vp_nd(7);
  for (size_t i = 0; i < ops; ++i) {
    switch (vp_nd(7)) {
      case 0:
        rcutils_reset_error();
        set = false;
        break;
      case 1:
        rcutils_set_error_state(vp_bool() ? NULL : "x", NULL, 3);
        rcutils_set_error_state(NULL, "y", 3);
        break;
      case 2: {
          if (!set) {break;}
          char was[2048];
          rcutils_error_string_t e = rcutils_get_error_string();
          strcpy(was, e.str);
          line = vp_nd(UINT64_MAX);
          rcutils_set_error_state(vp_bool() ? e.str : gtls_rcutils_error_string.str, rcutils_get_error_state()->file, line);
          snprintf(msg, MMAX + 1, "%s", was);
          break;
        }
      case 3: {
          char * t = text(lenof(MMAX));
          RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("%s:%d", t, 5); line = __LINE__;
          char b[4096];
          snprintf(b, sizeof b, "%s:5", t);
          snprintf(msg, MMAX + 1, "%s", b);
          snprintf(file, FMAX + 1, "%s", __FILE__);
          set = true;
          (free)(t);
          break;
        }
      case 4:
        if (vp_bool()) {
          rcutils_allocator_t a = {0};
          bool was = gtls_rcutils_thread_local_initialized;
          VP_CHECK(rcutils_initialize_error_handling_thread_local_storage(a) == (was ? RCUTILS_RET_OK : RCUTILS_RET_INVALID_ARGUMENT), "an invalid allocator is refused");
        }
        break;
      default: {
          char * m = text(lenof(MMAX)), * f = text(lenof(FMAX));
          line = vp_nd(UINT64_MAX);
          rcutils_set_error_state(m, f, line);
          snprintf(msg, MMAX + 1, "%s", m);
          snprintf(file, FMAX + 1, "%s", f);
          set = true;
          if (vp_bool()) {memset(m, 'z', strlen(m)); memset(f, 'z', strlen(f));}
          (free)(m); (free)(f);
          break;
        }
    }
    if (vp_bool()) {check_state();}
  }
  check_state();
  check_state();
#endif
}
