// vsnprintf by contract, in all modes: for the harness's format and argument the formatter produces
// an arbitrary text T of length L <= INT_MAX (the same on every call), or fails (negative result).
// It writes min(L, size-1) bytes of T plus a terminator, and nothing else.
#ifndef VP_FMT_H_
#define VP_FMT_H_
#include "vp.h"
#include "vp_str.h"

static struct
{
  char * text;        // T
  size_t len;         // L
  bool fail[4];       // which calls fail
  unsigned calls;
  const char * format;
  int arg;            // first variadic argument, checked to be forwarded
  bool check_arg;
} g_fmt;

static void vp_fmt_init(uint64_t pmax, uint64_t bmax, uint64_t nmax, bool may_fail)
{
  g_fmt.len = (size_t)vp_nd(VP_LIM(pmax, bmax, nmax));
  g_fmt.text = vp_cstr(g_fmt.len);
  for (int i = 0; i < 4; ++i) {g_fmt.fail[i] = may_fail && vp_bool();}
}

static int vp_vsnprintf(char * buf, size_t size, const char * format, va_list args)
{
  VP_CHECK(format == g_fmt.format, "the caller's format string is passed on");
  if (g_fmt.check_arg) {
    VP_CHECK(va_arg(args, int) == g_fmt.arg, "the caller's arguments are passed on, from the start");
  }
  unsigned k = g_fmt.calls < 3 ? g_fmt.calls : 3;
  g_fmt.calls++;
  if (g_fmt.fail[k]) {return -1;}
  if (size > 0) {
    size_t m = g_fmt.len < size - 1 ? g_fmt.len : size - 1;
    VP_CHECK(buf != NULL, "formatting into a null buffer with non-zero size");
#ifdef VP_PROOF
    VP_CHECK(__CPROVER_w_ok(buf, m + 1), "formatted text stays inside the buffer");
    size_t off = (size_t)__CPROVER_POINTER_OFFSET(buf);
    if (__CPROVER_w_ok(buf, m + 1)) {
      __CPROVER_havoc_slice(buf, m + 1);
      if (g_w >= off && g_w - off < m) {buf[g_w - off] = g_fmt.text[g_w - off];}
      buf[m] = 0;
    }
#else
    for (size_t i = 0; i < m; ++i) {buf[i] = g_fmt.text[i];}
    buf[m] = 0;
#endif
  }
  return (int)g_fmt.len;
}
#define vsnprintf vp_vsnprintf
#endif  // VP_FMT_H_
