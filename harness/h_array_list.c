//VP unit=array_list_init prop=C06,C30,C31 funcs=rcutils_array_list_init,rcutils_array_list_fini,rcutils_get_zero_initialized_array_list unwind=8 solver=z3 bound="capacity and element size up to 3"
//VP unit=array_list_add prop=C06,C30 funcs=rcutils_array_list_add,rcutils_array_list_increase_capacity,rcutils_array_list_get_pointer_for_index unwind=8 solver=cadical arith=cvc5 bound="2 or 3 elements of 2 bytes"
//VP unit=array_list_set prop=C06 funcs=rcutils_array_list_set,rcutils_array_list_get_pointer_for_index unwind=8 solver=cadical arith=cvc5 bound="2 or 3 elements of 2 bytes"
//VP unit=array_list_get prop=C06 funcs=rcutils_array_list_get,rcutils_array_list_get_size,rcutils_array_list_get_pointer_for_index unwind=8 solver=cadical arith=cvc5 bound="2 or 3 elements of 2 bytes"
//VP unit=array_list_remove prop=C06 funcs=rcutils_array_list_remove,rcutils_array_list_get_pointer_for_index unwind=8 solver=cadical arith=cvc5 bound="2 or 3 elements of 2 bytes"
//VP unit=array_list_args prop=C06,C31 funcs=rcutils_array_list_add,rcutils_array_list_set,rcutils_array_list_get,rcutils_array_list_get_size,rcutils_array_list_remove,rcutils_array_list_fini unwind=8 solver=cadical arith=cvc5 bound="2 or 3 elements of 2 bytes"
//VP trust: memcpy/memmove by their C11 contracts
//VP trust: the supplied allocator behaves as malloc/realloc/free (fresh objects, may fail at any call)
#include "vp.h"
#include "vp_str.h"
#ifdef VP_PROOF
// cuts at the memory operations: byte offsets are products with the element size; each is checked to be
// the expected one as a separate arithmetic obligation and replaced by it
static void * vp_cut_dst(void * p);
static const void * vp_cut_src(const void * p);
static size_t vp_cut_len(size_t n), vp_cut_realloc(size_t n);
#define VP_CUT_DST(p) vp_cut_dst(p)
#define VP_CUT_SRC(p) vp_cut_src(p)
#define VP_CUT_LEN(n) vp_cut_len(n)
#define VP_CUT_REALLOC(n) vp_cut_realloc(n)
#endif
#include "vp_mem.h"
#include "vp_err.h"
#include "vp_alloc.h"
#ifdef VP_PROOF
size_t g_re_w;
#endif
#include "array_list.c"

#ifdef VP_PROOF
#define ES ((uint64_t)1 << 40)     // largest element
#endif
static rcutils_array_list_t L;
static size_t d;                   // element size
static size_t n, cap;              // elements, capacity
static size_t idx;                 // the element operated on
static size_t P, T;                // byte offset of element idx; bytes of all elements
static unsigned char * data;       // an element supplied by the caller
static unsigned char old, oldnext; // bytes g_w and g_w + d of the list before
#ifndef VP_PROOF
static unsigned char M[64];        // model of the contents
static bool g_grown;
#endif

#ifdef VP_PROOF
static size_t m, k, Q, R;
enum {CUT_NONE, CUT_PUT, CUT_GET, CUT_MOVE};
static int g_cut_kind;
// the definitions of P, Q, R, as needed by the arithmetic obligations
static bool vp_products(void)
{
  return d * idx == P && d * m == Q && d * k == R;
}
static void * vp_cut_dst(void * p)
{
  if (g_cut_kind != CUT_PUT && g_cut_kind != CUT_MOVE) {return p;}
  char * e = (char *)L.impl->list + P;
  VP_CHECK(VP_IMP(vp_products(), (char *)p == e), "[arith] the element's place is written");
  return e;
}
static const void * vp_cut_src(const void * p)
{
  if (g_cut_kind != CUT_GET && g_cut_kind != CUT_MOVE) {return p;}
  const char * e = (char *)L.impl->list + P + (g_cut_kind == CUT_MOVE ? d : 0);
  VP_CHECK(VP_IMP(vp_products(), (const char *)p == e), "[arith] the element (or the one after it) is read");
  return e;
}
static size_t vp_cut_len(size_t len)
{
  if (g_cut_kind != CUT_MOVE) {return len;}
  VP_CHECK(VP_IMP(vp_products(), len == Q), "[arith] all following elements are moved");
  return Q;
}
static size_t vp_cut_realloc(size_t len)
{
  VP_CHECK(VP_IMP(vp_products(), len >= T + R + d), "[arith] room for at least one more element");
  VP_CHECK(VP_IMP(vp_products(), len == d * L.impl->capacity * 2), "[arith] the storage doubles");
  return 2 * (T + R);
}
#define CUT(k) g_cut_kind = k
#else
#define CUT(k) ((void)0)
#endif

// An arbitrary valid list.  at_end: operate on the element after the last one.
static void any_list(bool at_end)
{
  rcutils_allocator_t al = vp_allocator(false);
#ifdef VP_PROOF
  // element size d, idx elements before, m after the operated one, k spare: all arbitrary
  m = vp_nd(VP_MAXOBJ); k = vp_nd(VP_MAXOBJ);
  d = vp_nd(VP_MAXOBJ);
  idx = vp_nd(VP_MAXOBJ);
  VP_ASSUME(d > 0);
  n = at_end ? idx : idx + 1 + m;
  cap = n + k;
  VP_ASSUME(cap > 0);
  // bytes of these parts: P = d*idx, Q = d*m, R = d*k.  The products are only looked at by the [arith]
  // obligations; for the others P, Q, R are arbitrary, not less than d unless the factor is 0.
  P = vp_nd(VP_MAXOBJ); Q = vp_nd(VP_MAXOBJ); R = vp_nd(VP_MAXOBJ);
  VP_ASSUME(VP_IMP(k > 0, R >= d) && VP_IMP(idx > 0, P >= d) && VP_IMP(idx == 0, P == 0) && VP_IMP(m == 0, Q == 0) && VP_IMP(k == 0, R == 0));
  T = at_end ? P : P + d + Q;
  VP_ASSUME(T + R <= VP_MAXOBJ);
  L.impl = vp_allocate(sizeof(rcutils_array_list_impl_t), &g_al_state);
  L.impl->allocator = al;
  L.impl->size = n;
  L.impl->capacity = cap;
  L.impl->data_size = d;
  L.impl->list = vp_allocate(T + R, &g_al_state);
  g_w = vp_nd(VP_MAXOBJ);
  g_re_w = g_w;
  old = g_w < T ? ((unsigned char *)L.impl->list)[g_w] : 0;
  oldnext = g_w + d < T ? ((unsigned char *)L.impl->list)[g_w + d] : 0;
#else
#ifdef VP_NATIVE
  d = (size_t)vp_nd(2) + 1;
  n = (size_t)vp_nd(3);
  cap = (size_t)vp_nd(2) + 1;
#else
  d = 2; cap = 2; n = at_end ? 2 : 3;
#endif
  L = rcutils_get_zero_initialized_array_list();
  rcutils_ret_t r = rcutils_array_list_init(&L, cap, d, &al);
  VP_CHECK(r == RCUTILS_RET_OK, "init");
  for (size_t i = 0; i < n; ++i) {
    for (size_t b = 0; b < d; ++b) {M[i * d + b] = (unsigned char)vp_nd(255);}
    r = rcutils_array_list_add(&L, &M[i * d]);
    VP_CHECK(r == RCUTILS_RET_OK, "add");
  }
  idx = at_end ? n : (size_t)vp_nd(2);
  VP_ASSUME(at_end || idx < n);
  P = d * idx;
  T = d * n;
  g_w = (size_t)vp_nd(VP_LIM(8, 8, 12));
  old = g_w < T ? M[g_w] : 0;
  oldnext = g_w + d < T ? M[g_w + d] : 0;
#endif
  data = (unsigned char *)vp_buf(d);
  g_al.calls = 0;
}

static unsigned char list_byte(size_t w)
{
#ifdef VP_PROOF
  return ((unsigned char *)L.impl->list)[w];
#else
  unsigned char e[3] = {0};
  rcutils_ret_t r = rcutils_array_list_get(&L, w / d, e);
  VP_CHECK(r == RCUTILS_RET_OK, "every element below the size can be read");
  return e[w % d];
#endif
}

static void expect_size(size_t want)
{
  size_t s = 77;
  VP_CHECK(rcutils_array_list_get_size(&L, &s) == RCUTILS_RET_OK && s == want, "number of elements");
#ifdef VP_PROOF
  VP_CHECK(L.impl->data_size == d && L.impl->capacity >= want, "element size kept, capacity at least the size");
#endif
  VP_CHECK(g_al.live == 2, "list structure and storage, nothing else");
}

static void finish(void)
{
  VP_CHECK(rcutils_array_list_fini(&L) == RCUTILS_RET_OK && L.impl == NULL && g_al.live == 0, "fini releases everything");
  VP_REACH("end");
}

void h_array_list_init(void)
{
  rcutils_allocator_t al = vp_allocator(vp_bool());
  bool nl = vp_bool(), na = vp_bool(), bad = vp_bool(), twice = vp_bool();
  if (bad) {al.allocate = NULL;}
  bool any = VP_LIM(1, 0, 1) && vp_bool();
  size_t c = (size_t)vp_nd(any ? UINT64_MAX : VP_LIM(VP_MAXOBJ, 3, 6)), s = (size_t)vp_nd(any ? UINT64_MAX : VP_LIM(VP_MAXOBJ, 3, 6));
  if (any && vp_bool()) {s = (size_t)1 << vp_nd(63); c = ((size_t)1 << vp_nd(63)) + (size_t)vp_nd(1);}
  L = rcutils_get_zero_initialized_array_list();
  VP_CHECK(L.impl == NULL, "zero initialized");
  if (twice) {L.impl = (rcutils_array_list_impl_t *)&al;}
  void * was = L.impl;
  rcutils_ret_t r = rcutils_array_list_init(nl ? NULL : &L, c, s, na ? NULL : &al);
  if (nl || na || bad || twice || c == 0 || s == 0) {
    VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && g_al.calls == 0 && L.impl == was, "invalid arguments are refused, nothing changes");
    return;
  }
  if (r != RCUTILS_RET_OK) {
    VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && g_err_set, "allocation failure is reported");
    VP_CHECK(g_al.failed || c > SIZE_MAX / s, "only when memory runs out or the size cannot be represented");
    VP_CHECK(g_al.live == 0 && L.impl == NULL, "nothing kept");
    VP_REACH("failed");
    return;
  }
  VP_CHECK(!g_al.failed && g_al.live == 2, "list structure and storage");
#ifdef VP_PROOF
  VP_CHECK(L.impl->size == 0 && L.impl->capacity == c && L.impl->data_size == s, "an empty list of the requested capacity");
  VP_CHECK(c <= SIZE_MAX / s, "the storage size is representable");
  VP_CHECK(__CPROVER_OBJECT_SIZE(L.impl->list) == c * s, "storage for capacity elements");
#else
  if (s <= 6) {
    unsigned char e[6] = {1, 2, 3, 4, 5, 6}, f[6];
    for (int i = 0; i < 2; ++i) {
      g_al.may_fail = false;
      VP_CHECK(rcutils_array_list_add(&L, e) == RCUTILS_RET_OK && rcutils_array_list_get(&L, (size_t)i, f) == RCUTILS_RET_OK &&
        0 == memcmp(e, f, s), "elements can be added and read back");
    }
  }
#endif
  VP_CHECK(rcutils_array_list_fini(&L) == RCUTILS_RET_OK && L.impl == NULL && g_al.live == 0, "fini releases everything");
  VP_REACH("end");
}

void h_array_list_add(void)
{
  any_list(true);
  g_al.may_fail = vp_bool();
  unsigned char want = g_w >= P && g_w - P < d ? data[g_w - P] : 0;
  CUT(CUT_PUT);
  rcutils_ret_t r = rcutils_array_list_add(&L, data);
  g_al.may_fail = false;
  if (r == RCUTILS_RET_OK) {
    expect_size(n + 1);
    VP_CHECK(VP_IMP(g_w < P, list_byte(g_w) == old), "earlier elements unchanged");
    VP_CHECK(VP_IMP(g_w >= P && g_w - P < d, list_byte(g_w) == want), "the element is appended");
    VP_CHECK(!g_al.failed, "no failure");
    if (n == cap) {VP_REACH("grown");}
    if (n < cap) {VP_REACHP("fits");}
  } else {
    VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && g_al.failed, "only allocation failures");
    expect_size(n);
    VP_CHECK(VP_IMP(g_w < T, list_byte(g_w) == old), "the list is unchanged when growing fails");
    VP_REACH("failed");
  }
  finish();
}

void h_array_list_set(void)
{
  any_list(false);
  unsigned char want = g_w >= P && g_w - P < d ? data[g_w - P] : 0;
  CUT(CUT_PUT);
  rcutils_ret_t r = rcutils_array_list_set(&L, idx, data);
  VP_CHECK(r == RCUTILS_RET_OK && g_al.calls == 0, "set succeeds");
  expect_size(n);
  VP_CHECK(VP_IMP(g_w >= P && g_w - P < d, list_byte(g_w) == want), "the element is replaced");
  VP_CHECK(VP_IMP(g_w < T && !(g_w >= P && g_w - P < d), list_byte(g_w) == old), "all others are unchanged");
  finish();
}

void h_array_list_get(void)
{
  any_list(false);
#ifdef VP_PROOF
  unsigned char want = g_w < d ? ((unsigned char *)L.impl->list)[P + g_w] : 0;
#else
  unsigned char want = g_w < d ? M[P + g_w] : 0;
#endif
  CUT(CUT_GET);
  rcutils_ret_t r = rcutils_array_list_get(&L, idx, data);
  VP_CHECK(r == RCUTILS_RET_OK && g_al.calls == 0, "get succeeds");
  VP_CHECK(VP_IMP(g_w < d, data[g_w] == want), "the element is copied out");
  expect_size(n);
  VP_CHECK(VP_IMP(g_w < T, list_byte(g_w) == old), "the list is unchanged");
  finish();
}

void h_array_list_remove(void)
{
  any_list(false);
  CUT(CUT_MOVE);
  rcutils_ret_t r = rcutils_array_list_remove(&L, idx);
  VP_CHECK(r == RCUTILS_RET_OK && g_al.calls == 0, "remove succeeds");
  expect_size(n - 1);
  VP_CHECK(VP_IMP(g_w < P, list_byte(g_w) == old), "elements before are unchanged");
  VP_CHECK(VP_IMP(g_w >= P && g_w < T - d, list_byte(g_w) == oldnext), "elements after move down by one");
  if (idx + 1 < n) {VP_REACH("middle");}
  if (idx + 1 == n) {VP_REACH("last");}
  finish();
}

void h_array_list_args(void)
{
  bool nl = vp_bool(), ni = vp_bool(), nd = vp_bool(), far = vp_bool();
  any_list(true);
  size_t i = far ? (size_t)vp_nd(UINT64_MAX) : 0;
  VP_ASSUME(!far || i >= n);
  rcutils_array_list_t Z = rcutils_get_zero_initialized_array_list();
  rcutils_array_list_t * p = nl ? NULL : ni ? &Z : &L;
  unsigned char keep = g_w < d ? data[g_w] : 0;
  size_t s = 5;
  rcutils_ret_t r = RCUTILS_RET_OK;
  bool bad = nl || ni;
  rcutils_ret_t want = !nl && ni ? RCUTILS_RET_NOT_INITIALIZED : RCUTILS_RET_INVALID_ARGUMENT;
  switch (vp_nd(5)) {
    case 0: bad = bad || nd; VP_ASSUME(bad); r = rcutils_array_list_add(p, nd ? NULL : data); break;
    case 1: bad = bad || nd || far; VP_ASSUME(bad); r = rcutils_array_list_set(p, i, nd ? NULL : data); break;
    case 2: bad = bad || nd || far; VP_ASSUME(bad); r = rcutils_array_list_get(p, i, nd ? NULL : data); break;
    case 3: bad = bad || nd; VP_ASSUME(bad); r = rcutils_array_list_get_size(p, nd ? NULL : &s); break;
    case 4: bad = bad || far; VP_ASSUME(bad); r = rcutils_array_list_remove(p, i); break;
    default: VP_ASSUME(bad); r = rcutils_array_list_fini(p);
  }
  VP_CHECK(r == want && g_err_set, "null or uninitialized list, null data and indexes out of bounds are refused");
  VP_CHECK(VP_IMP(g_w < d, data[g_w] == keep) && s == 5 && g_al.calls == 0, "nothing is written");
  expect_size(n);
  VP_CHECK(VP_IMP(g_w < T, list_byte(g_w) == old), "the list is unchanged");
  finish();
}
