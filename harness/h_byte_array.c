//VP unit=char_array_strncat_own entry=h_char_array_strncat prop=C11,C30 funcs=rcutils_char_array_strncat,rcutils_char_array_resize unwind=12 defs="-DVP_OWNED=1 -DVP_ALL=0" bdefs=-DBCAP=3 bound="capacities and texts up to 3 bytes"
//VP unit=char_array_strncat_lent entry=h_char_array_strncat prop=C11,C30 funcs=rcutils_char_array_strncat,rcutils_char_array_resize unwind=12 defs="-DVP_OWNED=0 -DVP_ALL=0" bdefs=-DBCAP=3 bound="capacities and texts up to 3 bytes"
//VP unit=char_array_strcat_own entry=h_char_array_strncat prop=C11,C30 funcs=rcutils_char_array_strcat,rcutils_char_array_strncat,rcutils_char_array_resize unwind=12 defs="-DVP_OWNED=1 -DVP_ALL=1" bdefs=-DBCAP=3 bound="capacities and texts up to 3 bytes"
//VP unit=char_array_strcat_lent entry=h_char_array_strncat prop=C11,C30 funcs=rcutils_char_array_strcat,rcutils_char_array_strncat,rcutils_char_array_resize unwind=12 defs="-DVP_OWNED=0 -DVP_ALL=1" bdefs=-DBCAP=3 bound="capacities and texts up to 3 bytes"
//VP unit=uint8_array_init prop=C12,C30,C31 funcs=rcutils_uint8_array_init,rcutils_uint8_array_fini,rcutils_get_zero_initialized_uint8_array unwind=10 bound="capacities up to 5"
//VP unit=uint8_array_resize prop=C12,C30,C31 funcs=rcutils_uint8_array_resize,rcutils_uint8_array_fini unwind=10 bound="capacities up to 5"
//VP unit=char_array_init prop=C11,C30,C31 funcs=rcutils_char_array_init,rcutils_char_array_fini,rcutils_get_zero_initialized_char_array unwind=10 bound="capacities up to 5"
//VP unit=char_array_resize prop=C11,C30,C31 funcs=rcutils_char_array_resize,rcutils_char_array_expand_as_needed,rcutils_char_array_fini unwind=10 bound="capacities up to 5"
//VP unit=char_array_memcpy prop=C11,C30 funcs=rcutils_char_array_memcpy,rcutils_char_array_strcpy,rcutils_char_array_resize unwind=10 bound="capacities and texts up to 5 bytes"
//VP unit=char_array_vsprintf prop=C11,C30 funcs=rcutils_char_array_vsprintf,rcutils_char_array_resize unwind=10 punwind=5 bound="capacities and texts up to 5 bytes"
//VP trust: vsnprintf by its C11 contract (arbitrary text of length <= INT_MAX, truncated to size-1 and terminated, or a negative result)
//VP trust: memcpy/strlen/memchr by their C11 contracts
//VP trust: the supplied allocator behaves as malloc/realloc/free (fresh objects, may fail at any call)
#include "vp.h"
#include "vp_str.h"
#include "vp_mem.h"
#include "vp_err.h"
#include "vp_alloc.h"
#include "vp_fmt.h"
#ifdef VP_PROOF
size_t g_re_w;
// memchr(p, 0, n) on a registered string: the contract, using the known terminator
static void * vp_memchr(const void * p, int c, size_t n)
{
  VP_CHECK(c == 0, "only searches for the terminator are modelled");
  size_t l = vp_strlen((const char *)p);
  return l < n ? (void *)((const char *)p + l) : NULL;
}
static size_t vp_strnlen(const char * p, size_t n)
{
  size_t l = vp_strlen(p);
  return l < n ? l : n;
}
#define memchr vp_memchr
#define strnlen vp_strnlen
#endif
#include "uint8_array.c"
#include "char_array.c"

#ifndef BCAP
#define BCAP 5
#endif
#define CAP VP_LIM(VP_MAXOBJ, BCAP, 40)
#define WIT VP_LIM(VP_MAXOBJ, 2 * BCAP + 1, 90)

static void witness(void)
{
  g_w = (size_t)vp_nd(WIT);
#ifdef VP_PROOF
  g_re_w = g_w;
#endif
}

// ------------------------------------------------------------ uint8_array

void h_uint8_array_init(void)
{
  bool na = vp_bool(), nal = vp_bool(), bad = vp_bool();
  size_t cap = (size_t)vp_nd(vp_bool() ? UINT64_MAX : CAP);
  rcutils_allocator_t al = vp_allocator(vp_bool());
  if (bad) {
    if (vp_bool()) {al.allocate = NULL;} else {al.deallocate = NULL;}
  }
  rcutils_uint8_array_t a = rcutils_get_zero_initialized_uint8_array();
  VP_CHECK(a.buffer == NULL && a.buffer_length == 0 && a.buffer_capacity == 0 && a.allocator.allocate == NULL,
    "zero initialized");
  rcutils_ret_t r = rcutils_uint8_array_init(na ? NULL : &a, cap, nal ? NULL : &al);
  if (na || nal || bad) {
    VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && g_al.calls == 0 && a.buffer == NULL, "invalid arguments are refused");
    return;
  }
  VP_CHECK(a.buffer_length == 0, "empty");
  if (r != RCUTILS_RET_OK) {
    VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && g_al.failed && g_err_set, "allocation failure is reported");
    VP_CHECK(g_al.live == 0 && a.buffer_capacity == 0, "nothing allocated, nothing claimed");
  } else {
    VP_CHECK(!g_al.failed && a.buffer_capacity == cap, "capacity as requested");
    VP_CHECK(g_al.live == (cap > 0 ? 1 : 0), "one buffer");
    if (cap > 0) {
      VP_REACH("buffer");
      a.buffer[0] = 1;
      a.buffer[cap - 1] = 2;
    } else {
      VP_CHECK(a.buffer == NULL, "no buffer for capacity zero");
    }
  }
  VP_CHECK(rcutils_uint8_array_fini(&a) == RCUTILS_RET_OK, "fini succeeds after success and after failure");
  VP_CHECK(g_al.live == 0 && a.buffer == NULL && a.buffer_length == 0 && a.buffer_capacity == 0, "everything released");
  VP_CHECK(rcutils_uint8_array_fini(&a) == RCUTILS_RET_OK && g_al.live == 0, "fini again is harmless");
  VP_CHECK(rcutils_uint8_array_fini(NULL) == RCUTILS_RET_INVALID_ARGUMENT, "null array refused");
  a.allocator.deallocate = NULL;
  VP_CHECK(rcutils_uint8_array_fini(&a) == RCUTILS_RET_INVALID_ARGUMENT, "invalid allocator refused");
  VP_REACH("end");
}

void h_uint8_array_resize(void)
{
  witness();
  rcutils_allocator_t al = vp_allocator(false);
  rcutils_uint8_array_t a;
  a.allocator = al;
  a.buffer_capacity = (size_t)vp_nd(CAP);
  a.buffer_length = (size_t)vp_nd(CAP);
  VP_ASSUME(a.buffer_length <= a.buffer_capacity);
  a.buffer = a.buffer_capacity ? (uint8_t *)vp_allocate(a.buffer_capacity, &g_al_state) : NULL;
#ifndef VP_PROOF
  for (size_t i = 0; i < a.buffer_capacity; ++i) {a.buffer[i] = (uint8_t)vp_nd(255);}
#endif
  size_t oc = a.buffer_capacity, ol = a.buffer_length;
  uint8_t old = g_w < oc ? a.buffer[g_w] : 0;
  uint8_t * ob = a.buffer;
  g_al.may_fail = vp_bool();
  g_al.calls = 0;
  size_t n = (size_t)vp_nd(vp_bool() ? UINT64_MAX : CAP);
  bool na = vp_bool(), bad = vp_bool();
  if (bad) {a.allocator.reallocate = NULL;}
  rcutils_ret_t r = rcutils_uint8_array_resize(na ? NULL : &a, n);
  a.allocator = al;
  if (na || n == 0 || bad) {
    VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && (g_err_set || bad), "null array, size zero and invalid allocator are refused");
    VP_CHECK(a.buffer == ob && a.buffer_capacity == oc && a.buffer_length == ol && g_al.calls == 0, "array unchanged");
    VP_CHECK(VP_IMP(g_w < oc, a.buffer[g_w] == old), "contents unchanged");
  } else if (r == RCUTILS_RET_OK) {
    VP_CHECK(!g_al.failed && a.buffer_capacity == n, "capacity as requested");
    VP_CHECK(a.buffer_length == (ol < n ? ol : n), "length kept, or cut to the capacity");
    VP_CHECK(VP_IMP(g_w < oc && g_w < n, a.buffer[g_w] == old), "contents kept up to the smaller size");
    a.buffer[n - 1] = 1;
    VP_CHECK(g_al.live == 1, "one buffer");
    if (n > oc) {VP_REACH("grow");}
    if (n < oc) {VP_REACH("shrink");}
  } else {
    VP_REACH("failed");
    VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && g_al.failed && g_err_set, "allocation failure is reported");
    VP_CHECK(a.buffer == NULL && a.buffer_capacity == 0 && a.buffer_length == 0 && g_al.live == 0, "left empty");
  }
  VP_CHECK(rcutils_uint8_array_fini(&a) == RCUTILS_RET_OK && g_al.live == 0, "fini releases everything");
  VP_REACH("end");
}

// ------------------------------------------------------------ char_array

void h_char_array_init(void)
{
  bool na = vp_bool(), nal = vp_bool(), bad = vp_bool();
  size_t cap = (size_t)vp_nd(vp_bool() ? UINT64_MAX : CAP);
  rcutils_allocator_t al = vp_allocator(vp_bool());
  if (bad) {
    if (vp_bool()) {al.allocate = NULL;} else {al.deallocate = NULL;}
  }
  rcutils_char_array_t a = rcutils_get_zero_initialized_char_array();
  VP_CHECK(a.buffer == NULL && a.buffer_length == 0 && a.buffer_capacity == 0 && a.allocator.allocate == NULL,
    "zero initialized");
  rcutils_ret_t r = rcutils_char_array_init(na ? NULL : &a, cap, nal ? NULL : &al);
  if (na || nal || bad) {
    VP_CHECK(r != RCUTILS_RET_OK && g_al.calls == 0 && a.buffer == NULL, "invalid arguments are refused");
    return;
  }
  VP_CHECK(a.buffer_length == 0 && a.owns_buffer, "empty");
  if (r != RCUTILS_RET_OK) {
    VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && g_al.failed && g_err_set, "allocation failure is reported");
    VP_CHECK(g_al.live == 0 && a.buffer_capacity == 0, "nothing allocated, nothing claimed");
  } else {
    VP_CHECK(!g_al.failed && a.buffer_capacity == cap, "capacity as requested");
    VP_CHECK(g_al.live == (cap > 0 ? 1 : 0), "one buffer");
    if (cap > 0) {
      VP_REACH("buffer");
      VP_CHECK(a.buffer[0] == 0, "the buffer holds the empty string");
      a.buffer[cap - 1] = 2;
    } else {
      VP_CHECK(a.buffer == NULL, "no buffer for capacity zero");
    }
  }
  VP_CHECK(rcutils_char_array_fini(&a) == RCUTILS_RET_OK, "fini succeeds after success and after failure");
  VP_CHECK(g_al.live == 0 && a.buffer == NULL && a.buffer_length == 0 && a.buffer_capacity == 0, "everything released");
  VP_CHECK(rcutils_char_array_fini(&a) == RCUTILS_RET_OK && g_al.live == 0, "fini again is harmless");
  VP_CHECK(rcutils_char_array_fini(NULL) != RCUTILS_RET_OK, "null array refused");
  a.allocator.deallocate = NULL;
  VP_CHECK(rcutils_char_array_fini(&a) != RCUTILS_RET_OK, "invalid allocator refused");
  VP_REACH("end");
}

static rcutils_char_array_t a;
static char * lent;        // the borrowed buffer, if any
static size_t oc, ol;      // capacity and length before
static char old, * ob;
static bool owned;

// An arbitrary char array: owned or borrowed buffer, any capacity, length and contents.  If text is
// set, a non-zero length counts a terminator at its end.
static void any_array(bool text)
{
  rcutils_allocator_t al = vp_allocator(false);
  a.allocator = al;
#ifdef VP_OWNED
  owned = VP_OWNED;
#else
  owned = vp_bool();
#endif
  a.owns_buffer = owned;
  oc = a.buffer_capacity = (size_t)vp_nd(CAP);
  ol = a.buffer_length = (size_t)vp_nd(CAP);
  VP_ASSUME(ol <= oc);
  lent = NULL;
  if (oc == 0) {
    a.buffer = NULL;
  } else if (owned) {
    a.buffer = (char *)vp_allocate(oc, &g_al_state);
#ifndef VP_PROOF
    for (size_t i = 0; i < oc; ++i) {a.buffer[i] = vp_achar();}
#endif
  } else {
    a.buffer = lent = (malloc)(oc);
    VP_ASSUME(lent != NULL);
#ifndef VP_PROOF
    for (size_t i = 0; i < oc; ++i) {lent[i] = vp_achar();}
#endif
  }
  if (text && ol > 0) {a.buffer[ol - 1] = 0;}
  ob = a.buffer;
  old = g_w < oc ? ob[g_w] : 0;
  g_al.calls = 0;
  g_al.may_fail = vp_bool();
}

// The invariant of the array after any operation; n: the byte written last by the operation, if the
// buffer was borrowed and replaced.
static void still_valid(void)
{
  VP_CHECK(a.buffer_length <= a.buffer_capacity, "length within the capacity");
  VP_CHECK(g_al.live == (a.owns_buffer && a.buffer != NULL ? 1 : 0), "at most one buffer, owned by the array");
  VP_CHECK(a.owns_buffer || a.buffer == lent, "a buffer that is not owned is the borrowed one");
  if (a.buffer_capacity > 0) {
    char c = a.buffer[a.buffer_capacity - 1];
    a.buffer[a.buffer_capacity - 1] = c;
  }
}

static void finish(void)
{
  VP_CHECK(rcutils_char_array_fini(&a) == RCUTILS_RET_OK, "fini succeeds");
  VP_CHECK(g_al.live == 0, "everything released");
  VP_CHECK(a.buffer == NULL && a.buffer_length == 0 && a.buffer_capacity == 0, "empty after fini");
  if (lent) {
    lent[0] = 1;           // the borrowed buffer is still the caller's
    (free)(lent);
  }
}

void h_char_array_resize(void)
{
  witness();
  any_array(false);
  size_t n = (size_t)vp_nd(vp_bool() ? UINT64_MAX : CAP);
  bool na = vp_bool(), bad = vp_bool(), expand = vp_bool();
  rcutils_allocator_t al = a.allocator;
  if (bad) {a.allocator.reallocate = NULL;}
  rcutils_ret_t r = expand ? rcutils_char_array_expand_as_needed(na ? NULL : &a, n) :
    rcutils_char_array_resize(na ? NULL : &a, n);
  a.allocator = al;
  bool nothing = expand ? n <= oc : n == oc && n > 0 && !bad;
  if (na || (!nothing && (n == 0 || bad))) {
    VP_CHECK(r != RCUTILS_RET_OK && g_err_set, "null array, size zero and invalid allocator are refused");
    VP_CHECK(VP_IMP(n == 0 && !na, r == RCUTILS_RET_INVALID_ARGUMENT), "size zero is an invalid argument");
    nothing = true;
  } else {
    if (nothing) {VP_CHECK(r == RCUTILS_RET_OK, "nothing to do");}
  }
  if (nothing) {
    VP_CHECK(a.buffer == ob && a.buffer_capacity == oc && a.buffer_length == ol && g_al.calls == 0 && a.owns_buffer == owned,
      "array unchanged");
    VP_CHECK(VP_IMP(g_w < oc, a.buffer[g_w] == old), "contents unchanged");
  } else if (r == RCUTILS_RET_OK) {
    size_t grow = oc + oc / 2;
    if (expand) {
      VP_CHECK(a.buffer_capacity >= n && a.buffer_capacity >= oc && (a.buffer_capacity == n || a.buffer_capacity <= grow),
        "at least the requested capacity");
      n = a.buffer_capacity;
    }
    VP_CHECK(!g_al.failed && a.buffer_capacity == n && a.owns_buffer, "capacity as requested, owned");
    VP_CHECK(a.buffer_length == (ol < n ? ol : n), "length kept, or cut to the capacity");
    size_t m = oc < n ? oc : n;
    VP_CHECK(VP_IMP(g_w < m && (owned || g_w + 1 < m), a.buffer[g_w] == old), "contents kept up to the smaller size");
    VP_CHECK(VP_IMP(!owned && m > 0, a.buffer[m - 1] == 0), "the copy of a borrowed buffer is terminated");
    VP_CHECK(VP_IMP(!owned && g_w < oc, lent[g_w] == old), "the borrowed buffer is untouched");
    if (n > oc && owned) {VP_REACH("grow");}
    if (n < oc && !owned) {VP_REACH("shrink");}
  } else {
    VP_REACH("failed");
    VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && g_al.failed && g_err_set, "allocation failure is reported");
  }
  still_valid();
  finish();
  VP_REACH("end");
}

void h_char_array_memcpy(void)
{
  witness();
  any_array(false);
  size_t n = (size_t)vp_nd(CAP);
  bool cpy = vp_bool();
  char * src;
  if (cpy) {
    src = vp_input_str(n, 0);
    n++;
  } else {
    src = vp_buf(n);
  }
  char want = g_w < n ? src[g_w] : 0;
  rcutils_ret_t r = cpy ? rcutils_char_array_strcpy(&a, src) : rcutils_char_array_memcpy(&a, src, n);
  if (r == RCUTILS_RET_OK) {
    VP_CHECK(a.buffer_length == n && a.buffer_capacity >= n && a.buffer_capacity >= oc, "length is the number of bytes copied; never shrinks");
    VP_CHECK(VP_IMP(g_w < n, a.buffer[g_w] == want), "exactly the copied bytes");
    VP_CHECK(VP_IMP(n <= oc, a.buffer == ob && a.owns_buffer == owned && g_al.calls == 0), "no allocation when it fits");
    VP_CHECK(VP_IMP(n <= oc && g_w >= n && g_w < oc, a.buffer[g_w] == old), "nothing else is written");
    VP_CHECK(VP_IMP(n > oc && !owned && g_w < oc, lent[g_w] == old), "the borrowed buffer is untouched");
    if (n > oc) {VP_REACH("grown");}
    if (n <= oc) {VP_REACH("fits");}
  } else {
    VP_REACH("failed");
    VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && g_al.failed && g_err_set && n > oc, "only an allocation failure, when growing");
  }
  still_valid();
  finish();
}

void h_char_array_strncat(void)
{
  witness();
  any_array(true);
  size_t n = (size_t)vp_nd(CAP), l = (size_t)vp_nd(CAP);
#ifndef VP_ALL
#define VP_ALL 0
#endif
  bool all = VP_ALL;
  if (!all && vp_bool()) {n = (size_t)vp_nd(UINT64_MAX);}
  char * src = vp_input_str(l, 0);
  size_t k = all || l < n ? l : n;      // bytes appended, as strncat/strcat do
  size_t cur = ol > 0 ? ol - 1 : 0;
  char want = g_w >= cur && g_w - cur < k ? src[g_w - cur] : 0;
  rcutils_ret_t r = all ? rcutils_char_array_strcat(&a, src) : rcutils_char_array_strncat(&a, src, n);
  size_t nl = cur + k + 1;
  if (r == RCUTILS_RET_OK) {
    VP_CHECK(a.buffer_length == nl && a.buffer_capacity >= nl && a.buffer_capacity >= oc, "length counts the whole text and its terminator");
    VP_CHECK(VP_IMP(g_w < cur, a.buffer[g_w] == old), "existing text kept");
    VP_CHECK(VP_IMP(g_w >= cur && g_w - cur < k, a.buffer[g_w] == want), "appended text follows");
    VP_CHECK(a.buffer[nl - 1] == 0, "terminated");
    VP_CHECK(VP_IMP(nl > oc && !owned && g_w < oc, lent[g_w] == old), "the borrowed buffer is untouched when the array grows");
    if (nl > oc) {VP_REACH("grown");}
    if (nl <= oc && cur > 0) {VP_REACH("fits");}
  } else {
    VP_REACH("failed");
    VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && g_al.failed && g_err_set && nl > oc, "only an allocation failure, when growing");
  }
  still_valid();
  finish();
}

static rcutils_ret_t call_v(const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  rcutils_ret_t r = rcutils_char_array_vsprintf(&a, f, ap);
  va_end(ap);
  return r;
}

void h_char_array_vsprintf(void)
{
  static const char fmt[] = "%d";
  witness();
  any_array(false);
  vp_fmt_init(INT_MAX - 1, 6, 40, vp_bool());
  g_fmt.check_arg = true;
  g_fmt.arg = (int)vp_nd(1000);
  g_fmt.format = fmt;
  rcutils_ret_t r = call_v(fmt, g_fmt.arg);
  size_t n = g_fmt.len + 1;
  if (r == RCUTILS_RET_OK) {
    VP_CHECK(a.buffer_length == n && a.buffer_capacity >= n && a.buffer_capacity >= oc, "length counts the complete text and its terminator");
    VP_CHECK(VP_IMP(g_w < n, a.buffer[g_w] == g_fmt.text[g_w]), "the complete formatted text");
    VP_CHECK(a.buffer[n - 1] == 0, "terminated");
    VP_CHECK(VP_IMP(n <= oc, a.buffer == ob && g_al.calls == 0), "no allocation when it fits");
    if (n > oc) {VP_REACH("grown");}
    if (n <= oc) {VP_REACH("fits");}
  } else if (r == RCUTILS_RET_BAD_ALLOC) {
    VP_CHECK(g_al.failed && g_err_set && n > oc, "only when growing fails");
  } else {
    VP_REACH("formatter failed");
    VP_CHECK(r == RCUTILS_RET_ERROR && g_err_set && (g_fmt.fail[0] || g_fmt.fail[1]), "formatter failure is reported");
  }
  still_valid();
  finish();
}
