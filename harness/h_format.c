//VP unit=format_string_limit prop=C04,C30 funcs=rcutils_format_string_limit,rcutils_vsnprintf unwind=8 punwind=5 bound="formatted text up to 5 bytes"
//VP unit=snprintf prop=C04 funcs=rcutils_snprintf,rcutils_vsnprintf unwind=8 punwind=5 bound="formatted text up to 5 bytes"
//VP trust: vsnprintf by its C11 contract (arbitrary text of length <= INT_MAX, truncated to size-1 and terminated, or a negative result)
//VP trust: the supplied allocator behaves as malloc/realloc/free (fresh objects, may fail at any call)
#include "vp.h"
#include "vp_str.h"
#include "vp_mem.h"
#include "vp_alloc.h"
#include "vp_fmt.h"
#ifdef VP_PROOF
size_t g_re_w;
#endif
#include "snprintf.c"
#include "format_string.c"

void h_format_string_limit(void)
{
  static const char fmt[] = "%d";
  g_w = (size_t)vp_nd(VP_LIM(UINT64_MAX, 6, 30));
  vp_fmt_init(INT_MAX, 5, 30, vp_bool());
  g_fmt.check_arg = true;
  g_fmt.arg = (int)vp_nd(1000);
  size_t limit = (size_t)vp_nd(UINT64_MAX);
  bool nullfmt = vp_bool();
  bool bad = vp_bool();
  g_fmt.format = nullfmt ? NULL : fmt;
  rcutils_allocator_t al = vp_allocator(vp_bool());
  if (bad) {al.reallocate = NULL;}
  char * r = rcutils_format_string_limit(al, limit, g_fmt.format, g_fmt.arg);
  bool fmt_failed = g_fmt.fail[0] || g_fmt.fail[1];
  if (nullfmt || bad) {
    VP_CHECK(r == NULL && g_al.live == 0, "null format or invalid allocator gives null");
  } else if (r == NULL) {
    VP_CHECK(fmt_failed || g_al.failed || limit == 0, "null only when formatting or allocation failed");
    VP_CHECK(g_al.live == 0, "nothing leaked on failure");
  } else {
    VP_REACH("formatted");
    size_t m = g_fmt.len < limit - 1 ? g_fmt.len : limit - 1;
    if (m < g_fmt.len) {VP_REACH("truncated");}
    VP_CHECK(limit > 0 && !fmt_failed, "no result when formatting failed");
    VP_CHECK(r[m] == 0, "text is terminated at min(length, limit-1)");
    VP_CHECK(VP_IMP(g_w < m, r[g_w] == g_fmt.text[g_w]), "every byte of the formatted text up to the limit");
    VP_CHECK(g_al.live == 1, "one allocation is handed out");
    al.deallocate(r, al.state);
  }
}

void h_snprintf(void)
{
  static const char fmt[] = "%d";
  g_w = (size_t)vp_nd(VP_LIM(UINT64_MAX, 6, 30));
  vp_fmt_init(INT_MAX, 5, 30, vp_bool());
  g_fmt.check_arg = true;
  g_fmt.arg = (int)vp_nd(1000);
  bool nullfmt = vp_bool();
  g_fmt.format = nullfmt ? NULL : fmt;
  size_t size = (size_t)vp_nd(VP_LIM(VP_MAXOBJ, 7, 40));
  size_t cap = (size_t)vp_nd(VP_LIM(VP_MAXOBJ, 7, 40));
  VP_ASSUME(size <= cap);
  bool nullbuf = vp_bool();
  char * buf = nullbuf ? NULL : vp_buf(cap);
  char old = (buf && g_w < cap) ? buf[g_w] : 0;
  int r = rcutils_snprintf(buf, size, g_fmt.format, g_fmt.arg);
  if (nullfmt || (nullbuf != (size == 0))) {
    VP_CHECK(r < 0 && errno == EINVAL, "null format, null buffer with a size or buffer without size are refused");
    VP_CHECK(VP_IMP(buf && g_w < cap, buf[g_w] == old), "refused call writes nothing");
  } else if (g_fmt.fail[0]) {
    VP_CHECK(r < 0, "formatter failure is reported");
  } else {
    VP_CHECK(r >= 0 && (size_t)r == g_fmt.len, "result is the length of the full text");
    if (buf) {
      VP_REACH("written");
      size_t m = g_fmt.len < size - 1 ? g_fmt.len : size - 1;
      VP_CHECK(buf[m] == 0, "text is terminated inside the buffer");
      VP_CHECK(VP_IMP(g_w < m, buf[g_w] == g_fmt.text[g_w]), "text is the formatted text, truncated");
      VP_CHECK(VP_IMP(g_w > m && g_w < cap, buf[g_w] == old), "nothing beyond the terminator is written");
    } else {
      VP_REACH("measured");
    }
  }
}
