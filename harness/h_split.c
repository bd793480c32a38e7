// C02: splitting strings.
//VP unit=sp_split prop=C02,C30,C31 nentry=h_split modes=proof solver=z3new arith=z3new split=1 chunk=20 defs=-DSP_SPLIT funcs=rcutils_split loops=rcutils_split_0,rcutils_split_1
//VP unit=sp_last prop=C02,C30,C31 nentry=h_split_last modes=proof punwind=4 split=1 chunk=60 defs=-DSP_LAST funcs=rcutils_split_last loops=rcutils_split_last_0
//VP unit=split prop=C02,C30,C31 funcs=rcutils_split,rcutils_string_array_init,rcutils_string_array_fini modes=native unwind=5 bdefs=-DSPLIT_N=3 bound="strings of up to 3 characters" fuzz=1
//VP unit=split_last prop=C02,C30,C31 funcs=rcutils_split_last,rcutils_string_array_init,rcutils_string_array_fini modes=native unwind=6 bound="strings of up to 4 characters"
//VP trust: snprintf(buf, n, "%s", s) by its C11 contract
//VP trust: string array initialization and finalization by the contracts proved for them in C10
//VP trust: the supplied allocator behaves as malloc/realloc/free (fresh objects, may fail at any call)
#include "vp.h"
#include "vp_str.h"
#include "vp_mem.h"
#include "vp_err.h"
#include "vp_alloc.h"
#include "rcutils/types/string_array.h"
#include "rcutils/logging_macros.h"
#undef RCUTILS_LOG_ERROR
#define RCUTILS_LOG_ERROR(...) VP_CHECK(0, "cleaning up never fails")
#include "rcutils/split.h"
#ifdef VP_PROOF
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-overflow"
size_t g_re_w;
static size_t n;                                  // length of the string
static char * str, d;
static rcutils_allocator_t a;
static rcutils_string_array_t out;
static size_t * g_begin, * g_cnt, * g_dc;         // start of the run of other characters before i; tokens that end before i; delimiters before i (not counting a leading one)
static size_t g_lo, g_end;                        // a leading / trailing delimiter is skipped
static size_t g_e, g_p, g_s, g_tsz, g_osz, g_live, g_dlen;
static bool g_istok;                              // some token ends at g_e
static char * g_tok, g_other, * g_src;
static bool g_pending, g_guess, g_alloc_failed, g_init_failed;
static char ** g_data;
static int g_finis;
static size_t g_second;                           // length of the text written last
static size_t g_k, g_eb, g_de;               // the token that ends at g_e: its place, where it begins; all delimiters; 
// the definitions of the ghost arrays at i, and that they never decrease
static void def_at(size_t i)
{
  VP_ASSUME(g_begin[i + 1] == (str[i] == d ? i + 1 : g_begin[i]) && g_begin[i] <= i);
  VP_ASSUME(g_cnt[i + 1] == g_cnt[i] + (str[i] == d && g_begin[i] < i) && g_cnt[i] <= i);
  VP_ASSUME(g_dc[i + 1] == g_dc[i] + (i >= g_lo && str[i] == d) && g_dc[i] <= i);
  VP_ASSUME(VP_IMP(i + 1 <= g_e, g_begin[i + 1] <= g_eb));
  VP_ASSUME(VP_IMP(i + 1 <= g_end, g_dc[i + 1] <= g_de));
}
#define VP_LOOP_rcutils_split_0 \
  __CPROVER_assigns(i, array_size) \
  __CPROVER_loop_invariant(i >= g_lo && (i <= g_end || i == g_lo) && array_size == 1 + g_dc[i] && array_size <= i + 1) \
  __CPROVER_decreases(g_end - i)
#define VP_BODY_rcutils_split_0 def_at(i);
#define VP_LOOP_rcutils_split_1 \
  __CPROVER_assigns(lhs, rhs, token_counter, g_live, g_osz, g_pending, g_alloc_failed, out.size, __CPROVER_object_whole(g_data), __CPROVER_object_whole(g_tok)) \
  __CPROVER_loop_invariant(rhs >= g_lo && (rhs <= g_end || rhs == g_lo) && lhs == g_begin[rhs] && lhs <= rhs && lhs >= g_lo && token_counter == g_cnt[rhs] && token_counter <= rhs && g_live == token_counter && !g_alloc_failed && !g_pending) \
  __CPROVER_loop_invariant(g_dc[rhs] <= g_de && out.size == 1 + g_de - g_dc[rhs] + token_counter && out.size <= g_dlen) \
  __CPROVER_loop_invariant(VP_IMP(g_istok && g_e < rhs, lhs > g_eb && g_k < token_counter && g_data[g_k] == g_tok && g_e - g_eb < g_tsz && g_tok[g_e - g_eb] == 0)) \
  __CPROVER_loop_invariant(VP_IMP(g_istok && g_e < rhs && g_w < g_e - g_eb, g_tok[g_w] == str[g_eb + g_w])) \
  __CPROVER_loop_invariant(VP_IMP(g_s < g_dlen, g_s < token_counter ? g_data[g_s] != NULL : g_data[g_s] == NULL)) \
  __CPROVER_decreases(g_end - rhs)
#define VP_BODY_rcutils_split_1 def_at(rhs); VP_ASSUME(str[rhs] != 0);
#define VP_LOOP_rcutils_split_last_0 \
  __CPROVER_assigns(i, found_last) \
  __CPROVER_loop_invariant(i >= g_lo && (i <= g_end || i == g_lo)) \
  __CPROVER_loop_invariant(found_last == n ? VP_IMP(g_p >= g_lo && g_p < i, str[g_p] != d) : found_last >= g_lo && found_last < i && str[found_last] == d && VP_IMP(g_p > found_last && g_p < i, str[g_p] != d)) \
  __CPROVER_decreases(g_end - i)

#ifdef SP_SPLIT
// the witness token (the one that ends at g_e) has an object of its own; the others are only measured.
// Which of the two an allocation is for is guessed here, and decided when the text is copied
static void * tok_allocate(size_t m, void * state)
{
  VP_CHECK(state == &g_al_state, "allocator called with its own state pointer");
  VP_CHECK(m > 0 && m <= n + 2, "room for a token");
  if (vp_bool()) {g_alloc_failed = true; return NULL;}
  g_live++;
  g_pending = true;
  if (g_istok && vp_bool()) {
    VP_ASSUME(m == g_tsz);                        // g_tsz is arbitrary
    return g_tok;
  }
  g_osz = m;
  return &g_other;
}
static void tok_deallocate(void * p, void * state)
{
  (void)p; (void)state;
  VP_CHECK(0, "tokens are released with the array");
}
rcutils_ret_t rcutils_string_array_init(rcutils_string_array_t * o, size_t size, const rcutils_allocator_t * al)
{
  VP_CHECK(o == &out && al != NULL && al->state == &g_al_state && al->allocate == tok_allocate, "the array is initialized with the given allocator");
  VP_CHECK(size <= VP_MAXOBJ, "its size");
  *o = (rcutils_string_array_t) {0};
  if (vp_bool()) {g_init_failed = true; return RCUTILS_RET_BAD_ALLOC;}
  g_dlen = size;
  g_data = (malloc)(size * sizeof(char *));
  VP_ASSUME(g_data != NULL);
  if (g_s < size) {g_data[g_s] = NULL;}
  o->data = g_data;
  o->size = size;
  o->allocator = *al;
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_string_array_fini(rcutils_string_array_t * o)
{
  VP_CHECK(o == &out, "the array is finalized");
  g_finis++;
  if (g_init_failed) {
    VP_CHECK(o->data == NULL, "an array that was not initialized");
    return RCUTILS_RET_OK;
  }
  VP_CHECK(o->data == g_data && g_live <= o->size && o->size <= g_dlen, "all tokens are in the array");
  VP_CHECK(VP_IMP(g_s < o->size, g_s < g_live ? g_data[g_s] != NULL : g_data[g_s] == NULL), "and nothing else");
  g_live = 0;
  *o = (rcutils_string_array_t) {0};
  return RCUTILS_RET_OK;
}
#endif
rcutils_string_array_t rcutils_get_zero_initialized_string_array(void)
{
  rcutils_string_array_t z = {0};
  return z;
}
// snprintf(b, size, "%s", s) for a part s of the string
static int vp_snprintf4(char * b, size_t size, const char * f, const char * s)
{
  VP_CHECK(f[0] == '%' && f[1] == 's' && f[2] == 0, "only the format %s is used");
  VP_CHECK(__CPROVER_same_object(s, str) && s >= str && (size_t)(s - str) <= n, "a part of the string is copied");
  size_t off = (size_t)(s - str), len = n - off;
  size_t k = size == 0 ? 0 : len < size ? len : size - 1;
#ifdef SP_SPLIT
  if (g_pending) {VP_ASSUME((b == g_tok) == (g_istok && off == g_eb));}
  g_pending = false;
  if (b == &g_other) {
    VP_CHECK(size <= g_osz, "the copy fits");
    return (int)(len & 0x7fffffff);
  }
  VP_CHECK(b == g_tok && size <= g_tsz, "the copy fits");
#else
  VP_CHECK(size == 0 || __CPROVER_w_ok(b, size), "the copy fits");
  g_second = k;
#endif
  if (size > 0) {
    if (g_w < k) {b[g_w] = str[off + g_w];}
    b[k] = 0;
  }
  return (int)(len & 0x7fffffff);
}
#define snprintf vp_snprintf4
#pragma CPROVER check pop
#ifdef SP_LAST
#undef rcutils_get_zero_initialized_string_array
#define rcutils_get_zero_initialized_string_array vp_unused_zero
#include "string_array.c"
#undef rcutils_get_zero_initialized_string_array
#endif
#include "split.c"

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-overflow"
static bool e_out, e_str, e_al;
static void any_input(void)
{
  e_out = vp_bool(); e_str = vp_bool(); e_al = vp_bool();
  n = (size_t)vp_nd((uint64_t)1 << 36);
  str = vp_cstr(n);
  g_s0.base = str; g_s0.len = n;
  VP_ASSUME(VP_IMP(n > 0, str[0] != 0 && str[n - 1] != 0));
  d = vp_char();
  VP_ASSUME(d != 0);
  g_w = (size_t)vp_nd(VP_MAXOBJ); g_p = (size_t)vp_nd(VP_MAXOBJ);
  VP_ASSUME(g_p <= n);
  if (n > 0) {
    g_lo = str[0] == d;
    g_end = n - (str[n - 1] == d);
  }
  out.size = (size_t)nondet_vp_u64();
}

#ifdef SP_SPLIT
void h_sp_split(void)
{
  any_input();
  a = vp_allocator(true);
  a.allocate = tok_allocate;
  a.deallocate = tok_deallocate;
  if (e_al) {a.zero_allocate = NULL;}
  g_begin = (malloc)((n + 2) * sizeof(size_t));
  g_cnt = (malloc)((n + 2) * sizeof(size_t));
  g_dc = (malloc)((n + 2) * sizeof(size_t));
  VP_ASSUME(g_begin != NULL && g_cnt != NULL && g_dc != NULL);
  VP_ASSUME(g_begin[0] == 0 && g_cnt[0] == 0 && g_dc[0] == 0);
  g_s = (size_t)vp_nd(VP_MAXOBJ); g_e = (size_t)vp_nd(VP_MAXOBJ); g_tsz = (size_t)vp_nd(VP_MAXOBJ);
  VP_ASSUME(g_e <= n && g_tsz > 0);
  g_tok = vp_buf(g_tsz);
  size_t total = 0;
  if (n > 0) {
    g_k = g_cnt[g_e]; g_eb = g_begin[g_e]; g_de = g_dc[g_end];
    VP_ASSUME(g_eb <= g_e && g_k <= g_e);
    def_at(0);
    def_at(n - 1);
    if (g_e < n) {def_at(g_e);}
    g_istok = (g_e == n || str[g_e] == d) && g_eb < g_e;
    total = g_cnt[n] + (g_begin[n] < n);
  }
  char c = g_p < n ? str[g_p] : 0;
  rcutils_ret_t r = rcutils_split(e_str ? NULL : str, d, a, e_out ? NULL : &out);
  VP_CHECK(VP_IMP(g_p < n, str[g_p] == c), "the input is not modified");
  if (e_out || (!e_str && n > 0 && e_al)) {
    VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && g_live == 0 && g_data == NULL, "a null array or an invalid allocator is refused");
    return;
  }
  if (e_str || n == 0) {
    VP_CHECK(r == RCUTILS_RET_OK && out.size == 0 && out.data == NULL && g_live == 0, "a null or empty string has no tokens");
    return;
  }
  if (r != RCUTILS_RET_OK) {
    VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && (g_alloc_failed || g_init_failed), "a failure means that memory ran out");
    VP_CHECK(g_live == 0 && g_finis == 1 && out.data == NULL && out.size == 0, "nothing is leaked on failure");
    VP_REACH("failed");
    return;
  }
  VP_CHECK(!g_alloc_failed && !g_init_failed && g_finis == 0, "running out of memory is reported");
  VP_CHECK(out.size == total && g_live == total && out.data == g_data, "there are exactly as many tokens as maximal delimiter-free substrings");
  VP_CHECK(VP_IMP(g_s < out.size, g_data[g_s] != NULL), "none is missing");
  if (g_istok) {
    VP_CHECK(g_k < out.size && out.data[g_k] == g_tok, "the token is in its place in the result");
    VP_CHECK(g_e - g_eb < g_tsz && g_tok[g_e - g_eb] == 0, "the token is terminated at its end");
    VP_CHECK(VP_IMP(g_w < g_e - g_eb, g_tok[g_w] == str[g_eb + g_w]), "the text of the token");
    VP_REACH("token");
  }
  VP_REACH("split");
}
#endif

#ifdef SP_LAST
void h_sp_last(void)
{
  any_input();
  a = vp_allocator(vp_bool());
  if (e_al) {a.zero_allocate = NULL;}
  char c = g_p < n ? str[g_p] : 0;
  rcutils_ret_t r = rcutils_split_last(e_str ? NULL : str, d, a, e_out ? NULL : &out);
  VP_CHECK(VP_IMP(g_p < n, str[g_p] == c), "the input is not modified");
  if (e_out || (!e_str && n > 0 && e_al)) {
    VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && g_al.calls == 0, "a null array or an invalid allocator is refused");
    return;
  }
  if (e_str || n == 0) {
    VP_CHECK(r == RCUTILS_RET_OK && out.size == 0 && out.data == NULL && g_al.live == 0, "a null or empty string has no tokens");
    return;
  }
  if (r != RCUTILS_RET_OK) {
    VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && g_al.failed && g_al.live == 0 && out.data == NULL, "a failure means that memory ran out, and leaks nothing");
    VP_REACH("failed");
    return;
  }
  size_t e = g_end < g_lo ? g_lo : g_end;
  VP_CHECK(out.size == 1 || out.size == 2, "one token or two");
  if (out.size == 1) {
    VP_CHECK(g_al.live == 2 && VP_IMP(g_p >= g_lo && g_p < e, str[g_p] != d), "one token when no delimiter remains");
    char * t = out.data[0];
    VP_CHECK(t[e - g_lo] == 0, "all the remaining text");
    VP_CHECK(VP_IMP(g_w < e - g_lo, t[g_w] == str[g_lo + g_w]), "the remaining text");
    VP_REACH("one");
  } else {
    VP_CHECK(g_al.live == 3, "two tokens");
    // the second token tells where it was split
    size_t l2 = g_second;
    size_t last = e - 1 - l2;
    VP_CHECK(l2 < e - g_lo && str[last] == d && VP_IMP(g_p > last && g_p < e, str[g_p] != d), "split at the last remaining delimiter");
    VP_CHECK(out.data[1][l2] == 0 && VP_IMP(g_w < l2, out.data[1][g_w] == str[last + 1 + g_w]), "the text after it");
    size_t l1 = last - g_lo;
    if (l1 > 0 && str[last - 1] == d) {--l1;}
    char * t = out.data[0];
    VP_CHECK(t[l1] == 0, "all the text before it");
    VP_CHECK(VP_IMP(g_w < l1, t[g_w] == str[g_lo + g_w]), "the text before it");
    VP_REACH("two");
  }
}
#endif
#pragma CPROVER check pop
#else
#ifndef VP_NATIVE
// snprintf with the format "%s" (the only one used here)
static int vp_snprintf_s(char * buf, size_t size, const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  const char * s = va_arg(ap, const char *);
  va_end(ap);
  VP_CHECK(f[0] == '%' && f[1] == 's' && f[2] == 0, "only the format %s is used");
  size_t i = 0;
  for (; s[i] != 0; ++i) {
    if (i + 1 < size) {buf[i] = s[i];}
  }
  if (size > 0) {buf[i < size ? i : size - 1] = 0;}
  return (int)i;
}
#define snprintf vp_snprintf_s
#endif
#include "string_array.c"
#include "split.c"

#ifndef SPLIT_N
#define SPLIT_N 4
#endif
static rcutils_allocator_t a;
static bool bad, nullout, nullstr, fresh;
static size_t n;
static char * str;
static char d;
static rcutils_string_array_t out;

static void setup(void)
{
  a = vp_allocator(vp_bool());
  bad = vp_nd(15) == 1;
  if (bad) {
    switch (vp_nd(3)) {
      case 0: a.allocate = NULL; break;
      case 1: a.deallocate = NULL; break;
      case 2: a.reallocate = NULL; break;
      default: a.zero_allocate = NULL; break;
    }
  }
  nullout = vp_nd(15) == 1;
  nullstr = vp_nd(15) == 1;
  n = (size_t)vp_nd(VP_LIM(0, SPLIT_N, 14));
  str = vp_input_str(n, 0);
  d = vp_bool() && n > 0 ? str[vp_nd(n - 1)] : vp_achar();
  VP_ASSUME(d != 0);
  g_w = (size_t)vp_nd(VP_LIM(0, SPLIT_N, 14));
  fresh = vp_bool();
  if (fresh) {
    // the output array need not be initialized
    out.size = 77;
    out.data = (char **)(uintptr_t)8;
    out.allocator = vp_allocator(g_al.may_fail);
  }
}

static void refused(rcutils_ret_t r)
{
  VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && g_err_set && g_al.calls == 0, "a null array or an invalid allocator is refused");
}

static bool failed(rcutils_ret_t r)
{
  if (r == RCUTILS_RET_OK) {return false;}
  VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && g_al.failed, "a failure means that memory ran out");
  VP_CHECK(g_al.live == 0, "nothing is leaked on failure");
  VP_CHECK(rcutils_string_array_fini(&out) == RCUTILS_RET_OK && g_al.live == 0, "the array can be finalized after a failure");
  VP_REACH("failed");
  return true;
}

static void done(void)
{
  VP_CHECK(rcutils_string_array_fini(&out) == RCUTILS_RET_OK && g_al.live == 0, "finalizing releases everything");
}

// token k of the result is [b, b + l) of the input
static void token(size_t k, size_t b, size_t l)
{
  VP_CHECK(k < out.size && out.data[k] != NULL, "the token is in the result");
  VP_CHECK(VP_IMP(g_w < l, out.data[k][g_w] == str[b + g_w]), "the text of the token");
  VP_CHECK(out.data[k][l] == 0, "the token is terminated at its end");
}

void h_split(void)
{
  setup();
  char keep = g_w < n ? str[g_w] : 0;
  rcutils_ret_t r = rcutils_split(nullstr ? NULL : str, d, a, nullout ? NULL : &out);
  VP_CHECK(VP_IMP(g_w < n, str[g_w] == keep), "the input is not modified");
  if (nullout) {refused(r); return;}
  if (nullstr || n == 0) {
    VP_CHECK(r == RCUTILS_RET_OK && out.size == 0 && out.data == NULL && g_al.live == 0, "a null or empty string has no tokens");
    return;
  }
  if (bad) {refused(r); return;}
  if (failed(r)) {return;}
  VP_CHECK(!g_al.failed, "running out of memory is reported");
  size_t k = 0;
  for (size_t i = 0; i < n; ) {
    if (str[i] == d) {++i; continue;}
    size_t b = i;
    while (i < n && str[i] != d) {++i;}
    token(k, b, i - b);
    ++k;
  }
  VP_CHECK(out.size == k, "there are exactly as many tokens as maximal delimiter-free substrings");
  VP_REACH("split");
  done();
}

void h_split_last(void)
{
  setup();
  char keep = g_w < n ? str[g_w] : 0;
  rcutils_ret_t r = rcutils_split_last(nullstr ? NULL : str, d, a, nullout ? NULL : &out);
  VP_CHECK(VP_IMP(g_w < n, str[g_w] == keep), "the input is not modified");
  if (nullout) {refused(r); return;}
  if (nullstr || n == 0) {
    VP_CHECK(r == RCUTILS_RET_OK && out.size == 0 && out.data == NULL && g_al.live == 0, "a null or empty string has no tokens");
    return;
  }
  if (bad) {refused(r); return;}
  if (failed(r)) {return;}
  VP_CHECK(!g_al.failed, "running out of memory is reported");
  size_t b = str[0] == d, e = n - (str[n - 1] == d);
  if (e < b) {e = b;}
  size_t last = e;
  for (size_t i = b; i < e; ++i) {
    if (str[i] == d) {last = i;}
  }
  if (last == e) {
    VP_CHECK(out.size == 1, "no delimiter remains: one token");
    token(0, b, e - b);
    VP_REACH("one");
  } else {
    VP_CHECK(out.size == 2, "two tokens");
    size_t x = last;
    if (x > b && str[x - 1] == d) {--x;}
    token(0, b, x - b);
    token(1, last + 1, e - last - 1);
    VP_REACH("two");
  }
  done();
}
#endif
