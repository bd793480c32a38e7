// rcutils_format_string_limit by the contract proved for it in C04, for formats made of literal
// text, %s, %.*s and %%: the text is the concatenation of the segments, cut at limit - 1.
// PROOF and BOUNDED modes; string arguments are registered strings in PROOF mode (vp_str.h).
#ifndef VP_STRFMT_H_
#define VP_STRFMT_H_
#include "vp.h"
#include "vp_str.h"
#include "rcutils/allocator.h"
#ifndef VP_NATIVE
static struct {const char * s; size_t n;} g_sf[12];
static unsigned g_sfn;
static size_t g_sflen;      // length of the whole text
static char * g_sfout;      // the result
static void vp_sf_seg(const char * s, size_t n)
{
  VP_CHECK(g_sfn < 12, "format string within the model");
  g_sf[g_sfn].s = s;
  g_sf[g_sfn].n = n;
  g_sfn++;
  g_sflen += n;
}
static char vp_sf_at(size_t i)
{
  char c = 0;
  bool done = false;
  for (unsigned k = 0; k < 12; ++k) {
    if (!done && k < g_sfn) {
      if (i < g_sf[k].n) {
        c = g_sf[k].s[i];
        done = true;
      } else {
        i -= g_sf[k].n;
      }
    }
  }
  return c;
}
static void vp_sf_parse(const char * f, va_list ap)
{
  g_sfn = 0;
  g_sflen = 0;
  for (; *f; ++f) {
    if (*f != '%') {
      vp_sf_seg(f, 1);
      continue;
    }
    ++f;
    size_t prec = SIZE_MAX;
    if (*f == '.' && f[1] == '*') {
      int p = va_arg(ap, int);
      if (p >= 0) {prec = (size_t)p;}
      f += 2;
    }
    if (*f == 's') {
      const char * s = va_arg(ap, const char *);
      size_t n = strlen(s);
      vp_sf_seg(s, n < prec ? n : prec);
    } else {
      VP_CHECK(*f == '%', "format conversion outside the model");
      vp_sf_seg(f, 1);
    }
  }
}
char * rcutils_format_string_limit(rcutils_allocator_t a, size_t limit, const char * f, ...)
{
  VP_CHECK(f != NULL && a.allocate != NULL && a.deallocate != NULL && a.reallocate != NULL && a.zero_allocate != NULL, "a format and a valid allocator");
  va_list ap;
  va_start(ap, f);
  vp_sf_parse(f, ap);
  va_end(ap);
  if (limit == 0 || g_sflen > INT_MAX) {return NULL;}
  size_t m = g_sflen < limit - 1 ? g_sflen : limit - 1;
  char * p = a.allocate(m + 1, a.state);
  if (p == NULL) {return NULL;}
#ifdef VP_PROOF
  if (g_w < m) {p[g_w] = vp_sf_at(g_w);}
#else
  for (size_t i = 0; i < m; ++i) {p[i] = vp_sf_at(i);}
#endif
  p[m] = 0;
  g_sfout = p;
#ifdef VP_PROOF
  g_s3.base = p;
  g_s3.len = m;
#endif
  return p;
}
#endif
#endif  // VP_STRFMT_H_
