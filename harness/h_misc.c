// C32: case-insensitive comparison, classification, sorting, error text.
//VP unit=isalnum prop=C32 funcs=rcutils_isalnum_no_locale unwind=2 bound="none: no loops"
//VP unit=casecmp prop=C32,C31 funcs=rcutils_strcasecmp,rcutils_strncasecmp unwind=6 bound="strings up to 3 characters"
//VP unit=qsort prop=C32,C31 funcs=rcutils_qsort unwind=6 bound="up to 3 elements"
//VP unit=strerror prop=C32 funcs=rcutils_strerror unwind=8 bound="messages and buffers up to 4 bytes"
//VP trust: strcasecmp, strncasecmp, qsort, strerror_r (GNU) and strncpy by their C/POSIX contracts
#include "vp.h"
#include "vp_str.h"
#include "vp_mem.h"
#include "vp_err.h"
#include "rcutils/isalnum_no_locale.h"

void h_isalnum(void)
{
  char c = vp_char();
  bool want = (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
  VP_CHECK(rcutils_isalnum_no_locale(c) == want, "exactly the characters 0-9 A-Z a-z are alphanumeric");
  if (want) {VP_REACH("yes");} else {VP_REACH("no");}
}

static struct {const char * a, * b; size_t n; bool limited; int r; int calls;} g_cc;
#ifdef VP_PROOF
static int vp_strcasecmp(const char * a, const char * b)
{
  VP_CHECK(!g_cc.limited, "no limit");
  g_cc.calls++;
  if (a == g_cc.b && b == g_cc.a) {return -g_cc.r;}
  VP_CHECK(a == g_cc.a && b == g_cc.b, "the caller's strings are compared");
  return g_cc.r;
}
static int vp_strncasecmp(const char * a, const char * b, size_t n)
{
  VP_CHECK(g_cc.limited && n == g_cc.n, "up to n bytes");
  g_cc.calls++;
  if (a == g_cc.b && b == g_cc.a) {return -g_cc.r;}
  VP_CHECK(a == g_cc.a && b == g_cc.b, "the caller's strings are compared");
  return g_cc.r;
}
#else
static int vp_lower(char c) {unsigned char u = (unsigned char)c; return u >= 'A' && u <= 'Z' ? u + 32 : u;}
static int vp_strncasecmp(const char * a, const char * b, size_t n)
{
  for (size_t i = 0; i < n; ++i) {
    if (vp_lower(a[i]) != vp_lower(b[i])) {return vp_lower(a[i]) - vp_lower(b[i]);}
    if (a[i] == 0) {break;}
  }
  return 0;
}
static int vp_strcasecmp(const char * a, const char * b) {return vp_strncasecmp(a, b, SIZE_MAX);}
#endif
static int sign(int x) {return x < 0 ? -1 : x > 0;}

static struct {void * p; size_t n, s; int (* f)(const void *, const void *); int calls;} g_qs;
#ifdef VP_PROOF
static void vp_qsort(void * p, size_t n, size_t s, int (* f)(const void *, const void *))
{
  VP_CHECK(p == g_qs.p && n == g_qs.n && s == g_qs.s && f == g_qs.f, "the whole array is sorted with the caller's comparison");
  g_qs.calls++;
}
#else
static void vp_qsort(void * p, size_t n, size_t s, int (* f)(const void *, const void *))
{
  g_qs.calls++;
  char * a = p;
  for (size_t i = 1; i < n; ++i) {
    for (size_t j = i; j > 0 && f(a + (j - 1) * s, a + j * s) > 0; --j) {
      for (size_t k = 0; k < s; ++k) {char t = a[(j - 1) * s + k]; a[(j - 1) * s + k] = a[j * s + k]; a[j * s + k] = t;}
    }
  }
}
#endif

static struct {char * buf; size_t size; int err; bool own; char * msg; size_t len; int calls;} g_se;
static char * vp_strerror_r(int e, char * buf, size_t n)
{
  VP_CHECK(e == g_se.err, "the text for errno");
  VP_CHECK(buf == g_se.buf && n <= g_se.size, "only the caller's buffer is used");
  g_se.calls++;
  if (!g_se.own) {return g_se.msg;}
  if (n == 0) {return buf;}
  size_t m = g_se.len < n - 1 ? g_se.len : n - 1;
#ifdef VP_PROOF
  __CPROVER_havoc_slice(buf, m + 1);
  if (g_w < m) {buf[g_w] = g_se.msg[g_w];}
#else
  for (size_t i = 0; i < m; ++i) {buf[i] = g_se.msg[i];}
#endif
  buf[m] = 0;
  return buf;
}
#ifdef VP_PROOF
// strncpy: the bytes of src up to its terminator, then zeros, n bytes in all
static char * vp_strncpy(char * dst, const char * src, size_t n)
{
  size_t l = strlen(src), m = l < n ? l : n;
  VP_CHECK(n == 0 || __CPROVER_w_ok(dst, n), "strncpy writes inside the buffer");
  VP_CHECK(dst == g_se.buf && src == g_se.msg, "the message goes to the start of the buffer");
  if (n > 0) {__CPROVER_havoc_slice(dst, n);}
  if (g_w < m) {dst[g_w] = src[g_w];}
  if (l < n) {dst[l] = 0;}
  return dst;
}
#else
static char * vp_strncpy(char * dst, const char * src, size_t n)
{
  size_t i = 0;
  for (; i < n && src[i]; ++i) {dst[i] = src[i];}
  for (; i < n; ++i) {dst[i] = 0;}
  return dst;
}
#endif
#undef strcasecmp
#undef strncasecmp
#define strcasecmp vp_strcasecmp
#define strncasecmp vp_strncasecmp
#define qsort vp_qsort
#define strerror_r vp_strerror_r
#define strncpy vp_strncpy
#include "strcasecmp.c"
#include "qsort.c"
#include "strerror.c"

void h_casecmp(void)
{
  g_cc.limited = vp_bool();
  g_cc.n = (size_t)vp_nd(VP_LIM(UINT64_MAX, 4, 8));
  size_t l = (size_t)vp_nd(VP_LIM(VP_MAXOBJ, 3, 6)), m = (size_t)vp_nd(VP_LIM(VP_MAXOBJ, 3, 6));
  const char * a = vp_bool() ? NULL : vp_input_str(l, 0), * b = vp_bool() ? NULL : vp_input_str(m, 1);
  if (vp_bool() && vp_bool()) {b = a;}
  g_cc.a = a; g_cc.b = b;
#ifdef VP_PROOF
  g_cc.r = (int)vp_nd(UINT32_MAX);
  VP_ASSUME(g_cc.r != INT_MIN && VP_IMP(a == b, g_cc.r == 0));
#else
  if (a && b && a != b && vp_bool()) {
    // same text up to case
    char * c = (char *)b;
    for (size_t i = 0; i < m && i < l; ++i) {
      c[i] = a[i];
      if (vp_bool() && vp_lower(a[i]) >= 'a' && vp_lower(a[i]) <= 'z') {c[i] = (char)(a[i] ^ 32);}
    }
  }
  if (a && b) {
    g_cc.r = 0;
    for (size_t i = 0; (!g_cc.limited || i < g_cc.n) && g_cc.r == 0; ++i) {
      unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
      if (x >= 'A' && x <= 'Z') {x = (unsigned char)(x - 'A' + 'a');}
      if (y >= 'A' && y <= 'Z') {y = (unsigned char)(y - 'A' + 'a');}
      g_cc.r = x < y ? -1 : x > y;
      if (x == 0) {break;}
    }
  }
#endif
  int v0 = (int)vp_nd(UINT32_MAX), v = v0;
  int * pv = vp_bool() ? NULL : &v;
  int r = g_cc.limited ? rcutils_strncasecmp(a, b, g_cc.n, pv) : rcutils_strcasecmp(a, b, pv);
  if (!a || !b || !pv) {
    VP_CHECK(r == -1 && v == v0, "null arguments are refused");
    VP_REACH("refused");
  } else {
    VP_CHECK(r == 0 && sign(v) == sign(g_cc.r), "the sign of the comparison");
    VP_REACH("compared");
  }
}

static int cmp2(const void * a, const void * b)
{
  const signed char * x = a, * y = b;
  return x[0] < y[0] ? -1 : x[0] > y[0];
}

void h_qsort(void)
{
  bool nf = vp_bool(), np = vp_bool();
#ifdef VP_PROOF
  g_qs.n = (size_t)vp_nd(UINT64_MAX);
  g_qs.s = (size_t)vp_nd(UINT64_MAX);
  static char any[1];
  g_qs.p = np ? NULL : any;
  signed char * e = NULL;
#else
  // elements of 2 bytes: key, identity
  g_qs.n = (size_t)vp_nd(VP_LIM(0, 3, 6));
  g_qs.s = 2;
  signed char * e = malloc(12);
  for (int i = 0; i < 6; ++i) {e[2 * i] = (signed char)vp_nd(3); e[2 * i + 1] = (signed char)i;}
  g_qs.p = np ? NULL : e;
#endif
  g_qs.f = nf ? NULL : cmp2;
  rcutils_ret_t r = rcutils_qsort(g_qs.p, g_qs.n, g_qs.s, g_qs.f);
  if (nf || (np && g_qs.n > 1)) {
    VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && g_err_set && g_qs.calls == 0, "null arguments are refused");
    VP_REACH("refused");
    return;
  }
  VP_CHECK(r == RCUTILS_RET_OK, "sorting succeeds");
#ifdef VP_PROOF
  (void)e;
  VP_CHECK(VP_IMP(g_qs.n > 1, g_qs.calls >= 1), "sorted");
#else
  unsigned seen = 0;
  for (size_t i = 0; i < g_qs.n && !np; ++i) {
    VP_CHECK(i == 0 || e[2 * i - 2] <= e[2 * i], "in order");
    seen |= 1u << e[2 * i + 1];
  }
  VP_CHECK(np || seen == (1u << g_qs.n) - 1, "a permutation");
#endif
  VP_REACH("sorted");
}

void h_strerror(void)
{
  g_se.err = (int)vp_nd(INT_MAX);
  g_se.own = vp_bool();
  g_se.size = (size_t)vp_nd(VP_LIM(VP_MAXOBJ, 4, 10));
  g_se.len = (size_t)vp_nd(VP_LIM(VP_MAXOBJ - 1, 4, 10));
  g_se.msg = vp_input_str(g_se.len, 0);
  g_se.buf = vp_buf(g_se.size);
  g_w = (size_t)vp_nd(VP_LIM(VP_MAXOBJ, 5, 10));
  char want = g_w < g_se.len ? g_se.msg[g_w] : 0;
  errno = g_se.err;
  rcutils_strerror(g_se.buf, g_se.size);
  if (g_se.size > 0) {
    size_t m = g_se.len < g_se.size - 1 ? g_se.len : g_se.size - 1;
    VP_CHECK(g_se.buf[m] == 0, "terminated after the message");
    VP_CHECK(VP_IMP(g_w < m, g_se.buf[g_w] == want), "the message, as far as it fits");
    VP_REACH("text");
  }
}
