// C03: substring replacement.
//VP unit=repl_str prop=C03,C30,C31 funcs=rcutils_repl_str modes=native unwind=5 bound="texts of up to 3, patterns of up to 2, replacements of up to 1 character" fuzz=1
//VP trust: strstr, strlen, strcpy and memcpy by their C contracts
//VP trust: the supplied allocator behaves as malloc/realloc/free (fresh objects, may fail at any call)
#include "vp.h"
#include "vp_str.h"
#include "vp_mem.h"
#include "vp_err.h"
#include "vp_alloc.h"
#ifndef VP_NATIVE
static char * vp_strstr(const char * h, const char * n)
{
  for (;; ++h) {
    size_t i = 0;
    for (; n[i] != 0 && h[i] == n[i]; ++i) {}
    if (n[i] == 0) {return (char *)h;}
    if (*h == 0) {return NULL;}
  }
}
#define strstr vp_strstr
#endif
#include "repl_str.c"

void h_repl_str(void)
{
  rcutils_allocator_t a = vp_allocator(vp_bool());
  bool nulla = vp_nd(15) == 1;
  bool bad = vp_nd(15) == 1;
  if (bad) {
    switch (vp_nd(3)) {
      case 0: a.allocate = NULL; break;
      case 1: a.deallocate = NULL; break;
      case 2: a.reallocate = NULL; break;
      default: a.zero_allocate = NULL; break;
    }
  }
  size_t n = (size_t)vp_nd(VP_LIM(0, 3, vp_bool() ? 12 : 150));
  size_t fl = (size_t)vp_nd(VP_LIM(0, 1, 3)) + 1;
  size_t tl = (size_t)vp_nd(VP_LIM(0, 1, 5));
  char * str = vp_input_str(n, 0);
  char * from = vp_input_str(fl, 1);
  char * to = vp_input_str(tl, 2);
#ifdef VP_NATIVE
  if (vp_bool()) {
    // many matches
    for (size_t i = 0; i + 1 < n + 1; ++i) {str[i] = vp_nd(3) == 0 ? 'b' : from[i % fl];}
  }
#endif
  char s0 = n ? str[0] : 0, f0 = from[0], t0 = tl ? to[0] : 0;
  char * r = rcutils_repl_str(str, from, to, nulla ? NULL : &a);
  VP_CHECK((n ? str[0] : 0) == s0 && from[0] == f0 && (tl ? to[0] : 0) == t0 && str[n] == 0 && from[fl] == 0 && to[tl] == 0, "the arguments are not modified");
  if (nulla || bad) {
    VP_CHECK(r == NULL && g_al.calls == 0 && g_al.live == 0, "an invalid allocator is refused");
    return;
  }
  if (r == NULL) {
    VP_CHECK(g_al.failed && g_al.live == 0, "null only when memory runs out, and nothing is leaked");
    VP_REACH("failed");
    return;
  }
  VP_CHECK(!g_al.failed && g_al.live == 1, "one string is handed out and nothing else stays allocated");
  size_t k = 0, hits = 0;
  for (size_t i = 0; i < n; ) {
    size_t j = 0;
    while (j < fl && i + j < n && str[i + j] == from[j]) {++j;}
    if (j == fl) {
      for (j = 0; j < tl; ++j) {
        VP_CHECK(r[k] == to[j], "an occurrence is replaced");
        ++k;
      }
      i += fl;
      ++hits;
    } else {
      VP_CHECK(r[k] == str[i], "text that is not part of an occurrence is kept");
      ++i;
      ++k;
    }
  }
  VP_CHECK(r[k] == 0, "the result ends where the text ends");
  if (hits > 1) {VP_REACH("several");}
  if (hits == 0) {VP_REACH("none");}
  a.deallocate(r, a.state);
}
