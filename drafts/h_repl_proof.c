// C03: substring replacement.
//VP unit=rp_str prop=C03,C30,C31 nentry=h_repl_str modes=proof solver=z3new arith=z3new split=1 chunk=20 funcs=rcutils_repl_str loops=rcutils_repl_str_0,rcutils_repl_str_1
//VP unit=rp_mul prop=C03 entry=h_rp_mul nentry=h_repl_str modes=proof dfcc=1 giflags="--apply-loop-contracts" solver=z3new native=0 defs=-DRP_MUL
//VP unit=repl_str prop=C03,C30,C31 funcs=rcutils_repl_str modes=native unwind=5 bound="texts of up to 3, patterns of up to 2, replacements of up to 1 character" fuzz=1
//VP trust: partial lengths of a result whose total length fits do not overflow and are at most the total (sums of natural numbers)
//VP trust: strstr, strlen, strcpy and memcpy by their C contracts
//VP trust: the supplied allocator behaves as malloc/realloc/free (fresh objects, may fail at any call)
#include "vp.h"
#include "vp_str.h"
#include "vp_mem.h"
#include "vp_err.h"
#ifdef VP_PROOF
#include "rcutils/allocator.h"
static int g_al_state;
// as proved in C28
bool rcutils_allocator_is_valid(const rcutils_allocator_t * al)
{
  return al != NULL && al->allocate != NULL && al->deallocate != NULL && al->zero_allocate != NULL && al->reallocate != NULL;
}
#else
#include "vp_alloc.h"
#endif
#if defined(VP_PROOF) && defined(RP_MUL)
// lemma: the sums g_mul[k + 1] = g_mul[k] + DIFF are the products k * DIFF, for every k
void h_rp_mul(void)
{
  size_t c = (size_t)vp_nd((uint64_t)1 << 36), diff = (size_t)nondet_vp_u64(), m = 0, k = 0;
  for (; k < c; ++k)
  __CPROVER_assigns(k, m)
  __CPROVER_loop_invariant(k <= c && m == diff * k)
  __CPROVER_decreases(c - k)
  {
    m += diff;
  }
  VP_CHECK(m == diff * c, "the sum of c terms");
}
#elif defined(VP_PROOF)
size_t g_re_w;
static size_t n, fl, tl;                          // lengths
static char * str, * from, * to;
static rcutils_allocator_t a;
static size_t * g_next;                           // g_next[i]: where the first occurrence of from at or after i starts; n if there is none
static size_t * g_pos;                            // g_pos[k]: where match k starts; n after the last
static size_t * g_at;                             // g_at[k]: where match k (after the last: the end) ends up in the result
static size_t * g_mul;                            // g_mul[k]: k times the difference of the lengths (modulo 2^64)
static size_t g_c, g_total;                       // matches; length of the result
static size_t g_k;                                // an arbitrary match
static size_t * g_cache, g_ccap, g_creq;          // the cache: an object of g_ccap (arbitrary) entries, g_creq bytes of which are requested so far
static char * g_ret;
static size_t g_retsz;
static bool g_failed, g_fits, g_cache_live, g_ret_live;
static size_t g_s_of, g_seg, g_off;               // in iteration i: the length of the text that follows match i, and where it goes
static bool g_copying;
#define START(k) ((k) == 0 ? 0 : g_pos[(k) - 1] + fl)   // where the text after match k - 1 starts
#define DIFF (tl - fl)
// the definitions at match k, k < g_c
#define DEF_AT(k) \
  VP_ASSUME(g_pos[k] <= n && fl <= n - g_pos[k] && g_next[g_pos[k] + fl] >= g_pos[k] + fl && (g_next[g_pos[k] + fl] == n || (g_next[g_pos[k] + fl] < n && fl <= n - g_next[g_pos[k] + fl]))); \
  VP_ASSUME(g_pos[(k) + 1] == g_next[g_pos[k] + fl] && (g_pos[(k) + 1] == n) == ((k) + 1 == g_c)); \
  VP_ASSUME(g_at[(k) + 1] == g_at[k] + tl + (g_pos[(k) + 1] - g_pos[k] - fl)); \
  VP_ASSUME(g_mul[(k) + 1] == g_mul[k] + DIFF);
// partial lengths of a result that fits
#define FITS_AT(k) \
  VP_ASSUME(g_at[k] <= g_total && tl <= g_total - g_at[k] && g_at[(k) + 1] <= g_total && g_at[(k) + 1] >= g_at[k] + tl && g_at[k] >= g_pos[k] - START(k));
#define LEN_AT(k) (g_pos[k] + g_mul[k])
#define VP_LOOP_rcutils_repl_str_0 \
  __CPROVER_assigns(pstr, pstr2, count, cache_sz, cache_sz_inc, pos_cache, pos_cache_tmp, g_creq, g_failed, g_cache_live, __CPROVER_object_whole(g_cache)) \
  __CPROVER_loop_invariant(count <= g_c && __CPROVER_same_object(pstr, str) && pstr == str + START(count) && START(count) <= n && !g_failed && g_pos[count] == g_next[START(count)] && (g_pos[count] == n) == (count == g_c) && START(count) <= g_pos[count] && g_pos[count] <= n) \
  __CPROVER_loop_invariant(count <= START(count) && g_at[count] == LEN_AT(count)) \
  __CPROVER_loop_invariant(cache_sz >= count && cache_sz <= count + 1048576 && cache_sz_inc >= 16 && cache_sz_inc <= 1048576 && g_creq == 8 * cache_sz && cache_sz <= g_ccap && g_cache_live == (cache_sz > 0) && pos_cache == (cache_sz > 0 ? g_cache : NULL) && VP_IMP(count == 0, cache_sz == 0)) \
  __CPROVER_loop_invariant(VP_IMP(g_k < count, g_cache[g_k] == g_pos[g_k]) && VP_IMP(count > 0, g_cache[0] == g_pos[0])) \
  __CPROVER_decreases(g_c - count)
#define VP_BODY_rcutils_repl_str_0 at_match(count);
#define VP_LOOP_rcutils_repl_str_1 \
  __CPROVER_assigns(i, pret, pstr, cpylen, g_seg, g_off, g_copying, __CPROVER_object_whole(ret)) \
  __CPROVER_loop_invariant(i <= g_c) \
  __CPROVER_loop_invariant(g_at[i] <= g_total) \
  __CPROVER_loop_invariant(__CPROVER_same_object(pret, ret) && pret == ret + g_at[i]) \
  __CPROVER_loop_invariant(VP_IMP(g_k < g_c, g_cache[g_k] == g_pos[g_k])) \
  __CPROVER_loop_invariant(VP_IMP(g_k <= i, g_at[g_k] <= g_at[i]) && VP_IMP(g_k < i, g_at[g_k] + tl <= g_at[i])) \
  __CPROVER_loop_invariant(VP_IMP(g_k <= i && KEPT, ret[g_w] == str[KEPT_FROM])) \
  __CPROVER_loop_invariant(VP_IMP(g_k < i && REPLACED, ret[g_w] == to[g_w - g_at[g_k]])) \
  __CPROVER_decreases(g_c - i)
#define VP_BODY_rcutils_repl_str_1 at_copy(i); \
  VP_CHECK(pret == ret + g_at[i], "the place in the result"); \
  pret = ret + g_at[i]; 
// result byte g_w is of the text between match g_k - 1 and match g_k; of the replacement of match g_k
#define KEPT (g_w < g_at[g_k] && g_at[g_k] - g_w <= g_pos[g_k] - g_s_of)
#define KEPT_FROM (g_pos[g_k] - (g_at[g_k] - g_w))
#define REPLACED (g_k < g_c && g_w >= g_at[g_k] && g_w - g_at[g_k] < tl)
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-overflow"
static void at_match(size_t k)
{
  if (k < g_c) {
    DEF_AT(k)
  }
}
static void at_copy(size_t i)
{
  if (i < g_c) {
    DEF_AT(i)
    FITS_AT(i)
    // g_k is arbitrary: what holds of cache entry g_k on entry to the loop holds of every entry
    VP_ASSUME(g_cache[i] == g_pos[i]);
    if (i + 1 < g_c) {VP_ASSUME(g_cache[i + 1] == g_pos[i + 1]);}
    g_seg = g_pos[i + 1] - g_pos[i] - fl;
    g_off = g_at[i] + tl;
    g_copying = true;
  }
}
static size_t rp_strlen(const char * p)
{
  bool in_str = __CPROVER_same_object(p, str) && p >= str && (size_t)(p - str) <= n;
  VP_CHECK(in_str || p == from || p == to, "strlen of one of the three strings");
  return p == from ? fl : p == to ? tl : n - (size_t)__CPROVER_POINTER_OFFSET(p);
}
#undef strlen
#define strlen rp_strlen
static char * vp_strstr_p(const char * h, const char * x)
{
  VP_CHECK(x == from, "the pattern is searched");
  VP_CHECK(__CPROVER_same_object(h, str) && h >= str && (size_t)(h - str) <= n, "in the string");
  size_t i = (size_t)(h - str), p = g_next[i];
  VP_ASSUME(p >= i && (p == n || (p < n && fl <= n - p)));
  return p == n ? NULL : str + p;
}
// only byte g_w of the result is followed; nothing is ever read back from the result, so that the
// arbitrary values its bytes have from the start stand for whatever else is copied there
static void rp_copy(char * dst, const char * src, size_t m)
{
  size_t off = (size_t)__CPROVER_POINTER_OFFSET(dst);
  if (g_w >= off && g_w - off < m) {g_ret[g_w] = src[g_w - off];}
}
static void * rp_memcpy(void * dst, const void * src, size_t m)
{
  VP_CHECK(m == 0 || __CPROVER_r_ok(src, m), "memcpy reads inside the source object");
  VP_CHECK(m == 0 || __CPROVER_w_ok(dst, m), "memcpy writes inside the destination object");
  VP_CHECK(m == 0 || (g_ret != NULL && __CPROVER_same_object(dst, g_ret) && !__CPROVER_same_object(dst, src)), "text is copied to the result");
  if (g_copying && __CPROVER_same_object(src, str)) {
    // a cut: these are the values, which are then used in place of what was passed
    VP_CHECK(m == g_seg, "the length of the text that follows the match");
    VP_ASSUME(m == g_seg);
    VP_CHECK((size_t)__CPROVER_POINTER_OFFSET(dst) == g_off, "where it goes");
    VP_ASSUME((size_t)__CPROVER_POINTER_OFFSET(dst) == g_off);
  }
  rp_copy(dst, src, m);
  return dst;
}
#undef memcpy
#define memcpy rp_memcpy
static char * vp_strcpy_p(char * dst, const char * src)
{
  size_t m = strlen(src);
  VP_CHECK(__CPROVER_w_ok(dst, m + 1) && dst == g_ret, "the copy fits");
  VP_CHECK(!__CPROVER_same_object(dst, src), "the strings do not overlap");
  rp_copy(dst, src, m);
  g_ret[m] = 0;
  return dst;
}
static void rp_is_cache(const size_t * p, size_t sz)
{
  VP_CHECK(p == (sz > 0 ? g_cache : NULL), "the cache");
}
// (the invariant determines the pointer; assigning it the same value again tells the verifier which object it points to)
#define strstr(h, x) (rp_is_cache(pos_cache, cache_sz), pos_cache = cache_sz > 0 ? g_cache : NULL, vp_strstr_p(h, x))
#define strcpy vp_strcpy_p
static void * rp_reallocate(void * p, size_t m, void * state)
{
  VP_CHECK(state == &g_al_state, "allocator called with its own state pointer");
  VP_CHECK(p == (g_cache_live ? g_cache : NULL), "the cache is reallocated");
  VP_CHECK(m > 0 && m % 8 == 0 && m >= g_creq, "the cache grows");
  if (vp_bool()) {g_failed = true; return NULL;}
  VP_ASSUME(m / 8 <= g_ccap);
  g_creq = m;
  g_cache_live = true;
  return g_cache;
}
// whether the length of the result fits: what g_fits (arbitrary at first) stands for
#define TOTAL_FITS (g_c == 0 || tl <= fl || DIFF <= (SIZE_MAX - 1 - n) / g_c)
static void * rp_allocate(size_t m, void * state)
{
  VP_CHECK(state == &g_al_state, "allocator called with its own state pointer");
  VP_CHECK(!g_ret_live && m > 0, "one result is allocated");
  VP_CHECK(TOTAL_FITS, "a result that is too long is not attempted");
  VP_ASSUME(g_fits);
  // g_mul[g_c] is a product (unit rp_mul)
  VP_CHECK(VP_IMP(g_mul[g_c] == DIFF * g_c, m == g_total + 1), "room for the result");
  VP_ASSUME(m == g_total + 1);
  if (m > VP_MAXOBJ || vp_bool()) {g_failed = true; return NULL;}
  g_ret = (malloc)(m);
  VP_ASSUME(g_ret != NULL);
  g_retsz = m;
  g_ret_live = true;
  return g_ret;
}
static void * rp_zero_allocate(size_t k, size_t m, void * state)
{
  (void)k; (void)m; (void)state;
  VP_CHECK(0, "zeroed memory is not needed");
  return NULL;
}
static void rp_deallocate(void * p, void * state)
{
  VP_CHECK(state == &g_al_state, "allocator called with its own state pointer");
  if (p == NULL) {return;}
  VP_CHECK(p == g_cache && g_cache_live, "the cache is released");
  g_cache_live = false;
}
#pragma CPROVER check pop
#include "repl_str.c"
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "pointer-overflow"
void h_rp_str(void)
{
  bool e_nulla = vp_bool(), e_bad = vp_bool();
  a.state = &g_al_state;
  a.zero_allocate = rp_zero_allocate;
  a.allocate = rp_allocate;
  a.reallocate = rp_reallocate;
  a.deallocate = rp_deallocate;
  if (e_bad) {
    switch (vp_nd(3)) {
      case 0: a.allocate = NULL; break;
      case 1: a.deallocate = NULL; break;
      case 2: a.reallocate = NULL; break;
      default: a.zero_allocate = NULL; break;
    }
  }
  n = (size_t)vp_nd((uint64_t)1 << 36); fl = (size_t)vp_nd((uint64_t)1 << 36); tl = (size_t)vp_nd((uint64_t)1 << 36);
  VP_ASSUME(fl > 0);
  str = vp_input_str(n, 0);
  from = vp_input_str(fl, 1);
  to = vp_input_str(tl, 2);
  g_next = (malloc)((n + 2) * sizeof(size_t));
  g_pos = (malloc)((n + 2) * sizeof(size_t));
  g_at = (malloc)((n + 2) * sizeof(size_t));
  g_ccap = (size_t)vp_nd((uint64_t)1 << 38);
  g_cache = (malloc)(g_ccap * sizeof(size_t));
  VP_ASSUME(g_next != NULL && g_pos != NULL && g_at != NULL && g_cache != NULL);
  g_w = (size_t)vp_nd(VP_MAXOBJ); g_k = (size_t)vp_nd(VP_MAXOBJ);
  g_c = (size_t)vp_nd((uint64_t)1 << 36);
  VP_ASSUME(g_c <= n && g_k <= g_c);
  g_mul = (malloc)((n + 2) * sizeof(size_t));
  VP_ASSUME(g_mul != NULL && g_mul[0] == 0);
  VP_ASSUME(g_pos[0] == g_next[0] && (g_pos[0] == n || (g_pos[0] < n && fl <= n - g_pos[0])) && (g_pos[0] == n) == (g_c == 0) && g_at[0] == g_pos[0]);
  if (g_k < g_c) {DEF_AT(g_k)}
  if (g_k > 0) {DEF_AT(g_k - 1)}
  if (g_c > 0) {DEF_AT(g_c - 1)}
  g_s_of = START(g_k);
  g_total = n + g_mul[g_c];
  g_fits = vp_bool();                             // what it means is decided below
  if (g_fits) {
    VP_ASSUME(g_total < SIZE_MAX);
    if (g_c > 0) {FITS_AT(g_c - 1)}
    if (g_c > 0) {FITS_AT(0)}
    if (g_k < g_c) {FITS_AT(g_k)}
    if (g_k > 0) {FITS_AT(g_k - 1)}
  }
  size_t g_p = (size_t)vp_nd(VP_MAXOBJ);
  char c0 = g_p < n ? str[g_p] : 0, c1 = g_p < fl ? from[g_p] : 0, c2 = g_p < tl ? to[g_p] : 0;
  char * r = rcutils_repl_str(str, from, to, e_nulla ? NULL : &a);
  VP_CHECK((g_p < n ? str[g_p] : 0) == c0 && (g_p < fl ? from[g_p] : 0) == c1 && (g_p < tl ? to[g_p] : 0) == c2, "the arguments are not modified");
  if (e_nulla || e_bad) {
    VP_CHECK(r == NULL && !g_ret_live && !g_cache_live && !g_failed, "an invalid allocator is refused");
    return;
  }
  VP_CHECK(!g_cache_live, "only the result stays allocated");
  if (r == NULL) {
    VP_CHECK(!g_ret_live && (g_failed || !TOTAL_FITS), "null only when memory runs out, and nothing is leaked");
    VP_REACH("failed");
    return;
  }
  VP_CHECK(!g_failed && g_ret_live && r == g_ret, "one string is handed out");
  VP_CHECK(r[g_total] == 0, "the result ends where the text ends");
  VP_CHECK(VP_IMP(KEPT, r[g_w] == str[KEPT_FROM]), "text that is not part of an occurrence is kept");
  VP_CHECK(VP_IMP(REPLACED, r[g_w] == to[g_w - g_at[g_k]]), "an occurrence is replaced");
  if (g_c > 1) {VP_REACH("several");}
  if (g_c == 0) {VP_REACH("none");}
}
#pragma CPROVER check pop
#else
#ifndef VP_NATIVE
static char * vp_strstr(const char * h, const char * n)
{
  for (;; ++h) {
    size_t i = 0;
    for (; n[i] != 0 && h[i] == n[i]; ++i) {}
    if (n[i] == 0) {return (char *)h;}
    if (*h == 0) {return NULL;}
  }
}
#define strstr vp_strstr
#endif
#include "repl_str.c"

void h_repl_str(void)
{
  rcutils_allocator_t a = vp_allocator(vp_bool());
  bool nulla = vp_nd(15) == 1;
  bool bad = vp_nd(15) == 1;
  if (bad) {
    switch (vp_nd(3)) {
      case 0: a.allocate = NULL; break;
      case 1: a.deallocate = NULL; break;
      case 2: a.reallocate = NULL; break;
      default: a.zero_allocate = NULL; break;
    }
  }
  size_t n = (size_t)vp_nd(VP_LIM(0, 3, vp_bool() ? 12 : 150));
  size_t fl = (size_t)vp_nd(VP_LIM(0, 1, 3)) + 1;
  size_t tl = (size_t)vp_nd(VP_LIM(0, 1, 5));
  char * str = vp_input_str(n, 0);
  char * from = vp_input_str(fl, 1);
  char * to = vp_input_str(tl, 2);
#ifdef VP_NATIVE
  if (vp_bool()) {
    // many matches
    for (size_t i = 0; i + 1 < n + 1; ++i) {str[i] = vp_nd(3) == 0 ? 'b' : from[i % fl];}
  }
#endif
  char s0 = n ? str[0] : 0, f0 = from[0], t0 = tl ? to[0] : 0;
  char * r = rcutils_repl_str(str, from, to, nulla ? NULL : &a);
  VP_CHECK((n ? str[0] : 0) == s0 && from[0] == f0 && (tl ? to[0] : 0) == t0 && str[n] == 0 && from[fl] == 0 && to[tl] == 0, "the arguments are not modified");
  if (nulla || bad) {
    VP_CHECK(r == NULL && g_al.calls == 0 && g_al.live == 0, "an invalid allocator is refused");
    return;
  }
  if (r == NULL) {
    VP_CHECK(g_al.failed && g_al.live == 0, "null only when memory runs out, and nothing is leaked");
    VP_REACH("failed");
    return;
  }
  VP_CHECK(!g_al.failed && g_al.live == 1, "one string is handed out and nothing else stays allocated");
  size_t k = 0, hits = 0;
  for (size_t i = 0; i < n; ) {
    size_t j = 0;
    while (j < fl && i + j < n && str[i + j] == from[j]) {++j;}
    if (j == fl) {
      for (j = 0; j < tl; ++j) {
        VP_CHECK(r[k] == to[j], "an occurrence is replaced");
        ++k;
      }
      i += fl;
      ++hits;
    } else {
      VP_CHECK(r[k] == str[i], "text that is not part of an occurrence is kept");
      ++i;
      ++k;
    }
  }
  VP_CHECK(r[k] == 0, "the result ends where the text ends");
  if (hits > 1) {VP_REACH("several");}
  if (hits == 0) {VP_REACH("none");}
  a.deallocate(r, a.state);
}
#endif
