// C10: string arrays.
//VP unit=sa_init prop=C10,C30,C31 funcs=rcutils_string_array_init,rcutils_get_zero_initialized_string_array unwind=6 bound="up to 3 strings"
//VP unit=sa_fini prop=C10,C30,C31 funcs=rcutils_string_array_fini loops=rcutils_string_array_fini_0 unwind=6 bound="up to 3 strings"
//VP unit=sa_cmp prop=C10,C31 funcs=rcutils_string_array_cmp loops=rcutils_string_array_cmp_0 unwind=6 bound="up to 3 strings of up to 2 characters"
//VP unit=sa_resize prop=C10,C30 funcs=rcutils_string_array_resize,rcutils_string_array_init loops=rcutils_string_array_resize_0,rcutils_string_array_resize_1 replace=rcutils_string_array_fini/contract_fini modes=proof
//VP unit=sa_sort prop=C10,C31 funcs=rcutils_string_array_sort,rcutils_string_array_sort_compare unwind=6 bound="strings of up to 3 characters"
//VP trust: strcmp and memcpy by their C contracts; rcutils_qsort sorts by the comparator it is given (checked in C32)
//VP trust: the supplied allocator behaves as malloc/realloc/free (fresh objects, may fail at any call)
#include "vp.h"
#include "vp_str.h"
#ifndef VP_PROOF
#include "vp_mem.h"
#endif
#include "vp_err.h"
#include "vp_alloc.h"
#include "rcutils/types/string_array.h"
#ifdef VP_PROOF
size_t g_re_w;
#endif

static rcutils_string_array_t S;
static size_t n, w;             // entries; the witness entry
static char * W;                // the witness entry's string (NULL: none)

#ifdef VP_PROOF
static size_t g_new;            // the requested size
static size_t g_k;              // index of the witness entry in the array being finalized
static char * A, * B;           // string i is A + i (left) / B + i (right)
static int g_wfreed;
static void * g_arr[4];         // the arrays of pointers
static int g_narr;
static char * g_none;
static char ** g_wp = &g_none;  // where the witness entry is stashed
static bool vp_other(const void * p)
{
  return (W == NULL || p != W) && p != g_arr[0] && p != g_arr[1] && p != g_arr[2] && p != g_arr[3];
}
static void sa_deallocate(void * p, void * state)
{
  if (p != NULL && (p == g_arr[0] || p == g_arr[1] || p == g_arr[2] || p == g_arr[3])) {
    if (g_arr[0] == p) {g_arr[0] = NULL;} else if (g_arr[1] == p) {g_arr[1] = NULL;} else if (g_arr[2] == p) {g_arr[2] = NULL;} else {g_arr[3] = NULL;}
    vp_deallocate(p, state);
    return;
  }
  VP_CHECK(state == &g_al_state, "allocator called with its own state pointer");
  if (p != NULL && p == W) {g_wfreed++;}
}
static void * sa_zero_allocate(size_t k, size_t s, void * state)
{
  void * p = vp_zero_allocate(k, s, state);
  if (p) {g_arr[g_narr++] = p;}
  return p;
}
static void * sa_reallocate(void * p, size_t bytes, void * state)
{
  VP_CHECK(state == &g_al_state, "allocator called with its own state pointer");
  VP_CHECK(p == S.data, "the array itself is resized");
  if (bytes != 0 && vp_al_refuse(bytes)) {return NULL;}
  if (bytes == 0 && p != NULL && vp_bool()) {
    // realloc(p, 0) may free and return null
    sa_deallocate(p, state);
    return NULL;
  }
  char ** q = (char **)(malloc)(bytes);
  VP_ASSUME(q != NULL);
  if (p != NULL) {
    size_t old = __CPROVER_OBJECT_SIZE(p);
    if (w < VP_MAXOBJ && w * 8 + 8 <= old && w * 8 + 8 <= bytes) {q[w] = ((char **)p)[w];}
    sa_deallocate(p, state);
  }
  g_al.live++;
  g_arr[g_narr++] = q;
  return q;
}
static void * vp_memcpy_sa(void * dst, const void * src, size_t bytes)
{
  VP_CHECK(dst != NULL && dst == g_arr[1] && bytes == 8 * (n - g_new) && src == &S.data[g_new], "exactly the dropped entries are stashed");
  VP_CHECK(__CPROVER_r_ok(src, bytes) && __CPROVER_w_ok(dst, bytes), "inside both arrays");
  __CPROVER_havoc_slice(dst, bytes);
  if (w >= g_new && w < n) {
    ((char **)dst)[w - g_new] = ((char **)src)[w - g_new];
    g_wp = &((char **)dst)[w - g_new];
  }
  return dst;
}
#define memcpy vp_memcpy_sa

static size_t f;                // first pair of entries that decides the comparison
static bool f_nl, f_nr;         // null entries there
static int f_res;               // the comparison there
static int vp_strcmp(const char * a, const char * b)
{
  VP_CHECK(a != NULL && b != NULL, "strcmp of a null pointer");
  bool swap = __CPROVER_same_object(a, B);
  const char * l = swap ? b : a, * r = swap ? a : b;
  VP_CHECK(__CPROVER_same_object(l, A) && __CPROVER_same_object(r, B) && l - A == r - B && l >= A && (size_t)(l - A) <= f, "entries at the same index are compared");
  int v = (size_t)(l - A) < f ? 0 : f_res;
  return swap ? -v : v;
}
#define strcmp vp_strcmp

// what sa_fini proves about fini, for the array of stashed entries
rcutils_ret_t contract_fini(rcutils_string_array_t * string_array)
__CPROVER_requires(string_array != NULL && (string_array->data == NULL || (string_array->allocator.deallocate == sa_deallocate && string_array->allocator.allocate != NULL && \
  string_array->allocator.reallocate != NULL && string_array->allocator.zero_allocate != NULL && string_array->allocator.state == (void *)&g_al_state && \
  string_array->data == g_arr[1] && g_al.live > 0 && __CPROVER_w_ok(string_array->data, 8 * string_array->size) && \
  (g_k < string_array->size ? g_wp == &string_array->data[g_k] : g_wp == &g_none))))
__CPROVER_assigns(string_array->data, string_array->size, g_wfreed, g_al.live)
__CPROVER_ensures(__CPROVER_return_value == RCUTILS_RET_OK)
__CPROVER_ensures(string_array->data == NULL)
__CPROVER_ensures(g_al.live == __CPROVER_old(g_al.live) - (__CPROVER_old(string_array->data) != NULL))
__CPROVER_ensures(g_wfreed == __CPROVER_old(g_wfreed) + (__CPROVER_old(string_array->data) != NULL && W != NULL && __CPROVER_old(*g_wp) == W))
;
#define VP_LOOP_rcutils_string_array_fini_0 \
  __CPROVER_assigns(i, __CPROVER_object_whole(string_array->data), g_wfreed, g_al.free_null) \
  __CPROVER_loop_invariant(i <= string_array->size) \
  __CPROVER_loop_invariant(VP_IMP(g_k < i, string_array->data[g_k] == NULL)) \
  __CPROVER_loop_invariant(VP_IMP(g_k >= i && g_k < string_array->size, string_array->data[g_k] == __CPROVER_loop_entry(string_array->data[g_k < string_array->size ? g_k : 0]))) \
  __CPROVER_loop_invariant(g_wfreed == (g_k < i && __CPROVER_loop_entry(string_array->data[g_k < string_array->size ? g_k : 0]) != NULL && \
    __CPROVER_loop_entry(string_array->data[g_k < string_array->size ? g_k : 0]) == W)) \
  __CPROVER_decreases(string_array->size - i)
// the other entries are other strings
#define VP_BODY_rcutils_string_array_fini_0 VP_ASSUME(i == g_k || vp_other(string_array->data[i]));
#define VP_LOOP_rcutils_string_array_cmp_0 \
  __CPROVER_assigns(i, *res) \
  __CPROVER_loop_invariant(i <= smallest_size && i <= f) \
  __CPROVER_decreases(smallest_size - i)
#define VP_BODY_rcutils_string_array_cmp_0 \
  VP_ASSUME(i > f || (lhs->data[i] == (i == f && f_nl ? NULL : A + i) && rhs->data[i] == (i == f && f_nr ? NULL : B + i)));
#define VP_LOOP_rcutils_string_array_resize_0 \
  __CPROVER_assigns(i; to_reclaim.data != NULL: __CPROVER_object_whole(to_reclaim.data)) \
  __CPROVER_loop_invariant(i <= to_reclaim.size && VP_IMP(g_k < i, to_reclaim.data[g_k] == NULL)) \
  __CPROVER_decreases(to_reclaim.size - i)
#define VP_LOOP_rcutils_string_array_resize_1 \
  __CPROVER_assigns(i; string_array->data != NULL: __CPROVER_object_whole(string_array->data)) \
  __CPROVER_loop_invariant(i >= string_array->size && (i <= new_size || string_array->size > new_size)) \
  __CPROVER_loop_invariant(VP_IMP(w >= string_array->size && w < i && w < new_size, string_array->data[w] == NULL)) \
  __CPROVER_loop_invariant(VP_IMP(w < string_array->size && w < new_size, string_array->data[w] == __CPROVER_loop_entry(string_array->data[w < new_size && w < string_array->size ? w : 0]))) \
  __CPROVER_decreases(new_size > i ? new_size - i : 0)
#endif

rcutils_ret_t rcutils_qsort(void * p, size_t k, size_t s, int (* c)(const void *, const void *));
#include "string_array.c"
extern rcutils_ret_t rcutils_string_array_sort(rcutils_string_array_t *);

static rcutils_allocator_t allocator_in(bool may_fail)
{
  rcutils_allocator_t a = vp_allocator(may_fail);
#ifdef VP_PROOF
  a.deallocate = sa_deallocate;
  a.reallocate = sa_reallocate;
  a.zero_allocate = sa_zero_allocate;
#endif
  return a;
}

static char * al_str(size_t len)
{
  char * p = vp_allocate(len + 1, &g_al_state);
  for (size_t i = 0; i < len; ++i) {
    p[i] = vp_achar();
    VP_ASSUME(p[i] != 0);
  }
  p[len] = 0;
  return p;
}

// an array of n entries, each null or an own string
static void any_array(void)
{
  rcutils_allocator_t a = allocator_in(false);
#ifdef VP_PROOF
  n = (size_t)vp_nd(VP_MAXOBJ / 8);
  w = (size_t)vp_nd(VP_MAXOBJ / 8);
  A = (char *)(malloc)(n + 1);
  S.allocator = a;
  S.size = n;
  S.data = NULL;
  if (n > 0 || vp_bool()) {
    S.data = vp_allocate(n * sizeof(char *), &g_al_state);
    g_arr[g_narr++] = S.data;
  }
  W = vp_bool() ? NULL : A + w;
  if (w < n) {S.data[w] = W;}
#else
  n = (size_t)vp_nd(VP_LIM(0, 2, 5));
  w = (size_t)vp_nd(VP_LIM(0, 2, 5));
  S = rcutils_get_zero_initialized_string_array();
  rcutils_ret_t r = rcutils_string_array_init(&S, n, &a);
  VP_CHECK(r == RCUTILS_RET_OK, "init");
  for (size_t i = 0; i < n; ++i) {
    S.data[i] = vp_bool() ? NULL : al_str(1);
  }
  W = w < n ? S.data[w] : NULL;
#endif
}

void h_sa_init(void)
{
  rcutils_allocator_t a = allocator_in(vp_bool());
  n = (size_t)vp_nd(VP_LIM(UINT64_MAX, 3, 6));
  bool any = VP_LIM(0, 0, 1) && vp_bool();
  if (any) {n = (size_t)vp_nd(UINT64_MAX);}
  w = (size_t)vp_nd(VP_LIM(UINT64_MAX, 3, 6));
  bool ns = vp_bool(), na = vp_bool(), bad = vp_bool();
  if (bad) {
    switch (vp_nd(3)) {
      case 0: a.allocate = NULL; break;
      case 1: a.deallocate = NULL; break;
      case 2: a.reallocate = NULL; break;
      default: a.zero_allocate = NULL;
    }
  }
  S = rcutils_get_zero_initialized_string_array();
  VP_CHECK(S.data == NULL && S.size == 0, "zero initialized");
  rcutils_ret_t r = rcutils_string_array_init(ns ? NULL : &S, n, na ? NULL : &a);
  if (ns || na || bad) {
    VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && g_err_set && g_al.calls == 0 && S.data == NULL && S.size == 0, "invalid arguments are refused without effect");
    VP_REACH("refused");
    return;
  }
  if (r != RCUTILS_RET_OK) {
    VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && g_err_set && g_al.failed && g_al.live == 0 && S.data == NULL, "allocation failure is reported");
    VP_CHECK(rcutils_string_array_fini(&S) == RCUTILS_RET_OK, "and the array can be finalized");
    VP_REACH("failed");
    return;
  }
  VP_CHECK(S.size == n && VP_IMP(n > 0, S.data != NULL && !g_al.failed), "n entries");
  VP_CHECK(VP_IMP(w < n, S.data[w] == NULL), "all null");
  VP_CHECK(g_al.live == (S.data != NULL), "one allocation");
  VP_REACH("end");
}

void h_sa_fini(void)
{
  bool null = vp_bool(), bad = vp_bool();
  any_array();
#ifdef VP_PROOF
  g_k = w;
#endif
  if (bad) {S.allocator.reallocate = NULL;}
  char ** data = S.data;
  size_t live = g_al.live;
  rcutils_ret_t r = rcutils_string_array_fini(null ? NULL : &S);
  if (null || (bad && data != NULL)) {
    VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && g_err_set, "null array or invalid allocator refused");
    VP_CHECK(S.data == data && S.size == n && VP_IMP(w < n, data[w] == W) && g_al.live == live, "without effect");
    VP_REACH("refused");
    return;
  }
  VP_CHECK(r == RCUTILS_RET_OK && S.data == NULL && S.size == 0, "empty afterwards");
  VP_CHECK(g_al.live == 0, "everything is released");
#ifdef VP_PROOF
  VP_CHECK(g_wfreed == (w < n && W != NULL), "every entry is freed, once");
#endif
  VP_REACH("end");
  VP_CHECK(rcutils_string_array_fini(&S) == RCUTILS_RET_OK, "finalizing twice is harmless");
}

void h_sa_resize(void)
{
  bool null = vp_bool(), bad = vp_bool();
  any_array();
  size_t m = (size_t)vp_nd(VP_LIM(UINT64_MAX, 2, 6));
  if (VP_LIM(0, 0, 1) && vp_bool()) {m = ((size_t)1 << vp_nd(63)) + (size_t)vp_nd(1);}
#ifdef VP_PROOF
  g_new = m;
  g_k = w - m;
#endif
  if (bad) {S.allocator.zero_allocate = NULL;}
  g_al.may_fail = vp_bool();
  g_al.calls = 0;
  char ** data = S.data;
  size_t live = g_al.live;
  rcutils_ret_t r = rcutils_string_array_resize(null ? NULL : &S, m);
  g_al.may_fail = false;
  if (null || (bad && m != n)) {
    VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && g_err_set && g_al.calls == 0, "null array or invalid allocator refused");
  }
  if (r != RCUTILS_RET_OK) {
    VP_CHECK(null || bad || (r == RCUTILS_RET_BAD_ALLOC && g_err_set && (g_al.failed || m > SIZE_MAX / 8)), "only allocation failures");
    VP_CHECK(S.data == data && S.size == n && VP_IMP(w < n, S.data[w] == W), "the array is unchanged when resizing fails");
    VP_CHECK(g_al.live == live, "nothing is leaked or lost");
#ifdef VP_PROOF
    VP_CHECK(g_wfreed == 0, "no entry is freed");
#endif
    VP_REACH("failed");
  } else {
    VP_CHECK(S.size == m && (m == 0 || m == n || !g_al.failed), "the new size");
    VP_CHECK(VP_IMP(w < n && w < m, S.data[w] == W), "common entries are kept");
    VP_CHECK(VP_IMP(w >= n && w < m, S.data[w] == NULL), "new entries are null");
#ifdef VP_PROOF
    VP_CHECK(g_wfreed == (w >= m && w < n && W != NULL), "dropped entries are freed, once, and no others");
    VP_CHECK(VP_IMP(m > 0, __CPROVER_r_ok(S.data, m * sizeof(char *))), "room for all entries");
    VP_CHECK(g_al.live == (S.data != NULL), "only the array itself");
#endif
    if (m > n) {VP_REACH("grown");}
    if (m < n) {VP_REACH("shrunk");}
  }
#ifndef VP_PROOF
  S.allocator = vp_allocator(false);
  VP_CHECK(rcutils_string_array_fini(&S) == RCUTILS_RET_OK && g_al.live == 0, "fini releases everything");
#endif
}

void h_sa_cmp(void)
{
  rcutils_string_array_t L = {0}, R = {0};
  bool ln = vp_bool(), rn = vp_bool(), on = vp_bool();
  bool bad_l = vp_bool(), bad_r = vp_bool();
  int res0 = (int)vp_nd(UINT32_MAX), res = res0;
  int want = 0;
  L.size = (size_t)vp_nd(VP_LIM(VP_MAXOBJ / 8, 3, 4));
  R.size = (size_t)vp_nd(VP_LIM(VP_MAXOBJ / 8, 3, 4));
  size_t m = L.size < R.size ? L.size : R.size;
  bool has_null = false;
  L.data = (char **)vp_buf(0), R.data = (char **)vp_buf(0);
#ifdef VP_PROOF
  L.data = (char **)vp_buf(L.size * sizeof(char *));
  R.data = (char **)vp_buf(R.size * sizeof(char *));
  A = vp_buf(L.size + 1);
  B = vp_buf(R.size + 1);
  f = (size_t)vp_nd(m);
  f_nl = vp_bool(); f_nr = vp_bool();
  f_res = (int)vp_nd(UINT32_MAX);
  VP_ASSUME(f_res != 0 && f_res != INT_MIN);
  has_null = f < m && (f_nl || f_nr);
  want = f < m ? f_res : 0;
#else
  L.data = (malloc)(L.size * sizeof(char *));
  R.data = (malloc)(R.size * sizeof(char *));
  for (size_t i = 0; i < L.size; ++i) {L.data[i] = vp_nd(7) == 0 ? NULL : vp_input_str((size_t)vp_nd(2), 0);}
  for (size_t i = 0; i < R.size; ++i) {R.data[i] = vp_nd(7) == 0 ? NULL : i < L.size && vp_bool() ? L.data[i] : vp_input_str((size_t)vp_nd(2), 0);}
  for (size_t i = 0; i < m && want == 0 && !has_null; ++i) {
    has_null = !L.data[i] || !R.data[i];
    if (!has_null) {want = strcmp(L.data[i], R.data[i]);}
  }
#endif
  if (want == 0) {want = L.size < R.size ? -1 : L.size > R.size;}
  if (bad_l) {L.data = NULL;}
  if (bad_r) {R.data = NULL;}
  rcutils_ret_t r = rcutils_string_array_cmp(ln ? NULL : &L, rn ? NULL : &R, on ? NULL : &res);
  if (ln || rn || on || (m > 0 && (bad_l || bad_r))) {
    VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && g_err_set && res == res0, "null arguments and arrays without data are refused");
    VP_REACH("refused");
  } else if (has_null) {
    VP_CHECK(r == RCUTILS_RET_ERROR && g_err_set, "a null entry is an error");
    VP_REACH("null entry");
  } else {
    VP_CHECK(r == RCUTILS_RET_OK, "comparison succeeds");
    VP_CHECK((res < 0) == (want < 0) && (res > 0) == (want > 0), "lexicographic by entry, then by length");
    VP_REACH("compared");
  }
}

static int g_sorted;
static rcutils_ret_t g_sort_ret;
rcutils_ret_t rcutils_qsort(void * p, size_t k, size_t s, int (* c)(const void *, const void *))
{
  VP_CHECK(p == S.data && k == S.size && s == sizeof(char *) && c == rcutils_string_array_sort_compare, "all entries are sorted by the array comparison");
  g_sorted++;
  return g_sort_ret;
}

void h_sa_sort(void)
{
  // the comparison
  char * l, * r;
  int want;
#ifdef VP_PROOF
  A = vp_buf(1); B = vp_buf(1);
  f = 0;
  f_res = (int)vp_nd(UINT32_MAX);
  VP_ASSUME(f_res != INT_MIN);
  l = vp_bool() ? NULL : A; r = vp_bool() ? NULL : B;
  want = f_res;
#else
  l = vp_bool() ? NULL : vp_input_str((size_t)vp_nd(3), 0);
  r = vp_bool() ? NULL : vp_input_str((size_t)vp_nd(3), 1);
  want = l && r ? strcmp(l, r) : 0;
#endif
  int c = rcutils_string_array_sort_compare(&l, &r);
  if (l && r) {
    VP_CHECK((c < 0) == (want < 0) && (c > 0) == (want > 0), "by content");
    VP_REACH("content");
  } else {
    VP_CHECK(l ? c < 0 : r ? c > 0 : c == 0, "null entries last");
  }
  // sorting
  static char * some[1];
  bool null = vp_bool();
  S.size = (size_t)vp_nd(UINT64_MAX);
  S.data = vp_bool() ? NULL : some;
  g_sort_ret = (rcutils_ret_t)vp_nd(3);
  rcutils_ret_t t = rcutils_string_array_sort(null ? NULL : &S);
  if (null) {
    VP_CHECK(t == RCUTILS_RET_INVALID_ARGUMENT && g_err_set && g_sorted == 0, "null array refused");
  } else {
    VP_CHECK(t == g_sort_ret && g_sorted == 1, "the array is sorted");
    VP_REACH("sorted");
  }
}
