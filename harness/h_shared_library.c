// C26: shared library handles.
//VP unit=sl_load prop=C26,C30,C31 funcs=rcutils_load_shared_library,rcutils_get_zero_initialized_shared_library unwind=8 bound="loader paths of up to 4 characters"
//VP unit=sl_symbol prop=C26,C31 funcs=rcutils_get_symbol,rcutils_has_symbol,rcutils_is_shared_library_loaded unwind=8 bound="none: no loops"
//VP unit=sl_unload prop=C26,C30,C31 funcs=rcutils_unload_shared_library unwind=8 bound="none: no loops"
//VP unit=sl_name prop=C26,C31 funcs=rcutils_get_platform_library_name unwind=11 punwind=6 bound="library names of up to 2 characters"
//VP trust: dlopen, dlsym, dlclose, dlinfo and dlerror by their POSIX contracts (any of them may fail; dlerror reports and clears the last error)
//VP trust: rcutils_strdup and rcutils_snprintf by contract (C04)
//VP trust: the supplied allocator behaves as malloc/realloc/free (fresh objects, may fail at any call)
#include "vp.h"
#include "vp_str.h"
#include "vp_mem.h"
#include "vp_err.h"
#include "vp_alloc.h"
#include <link.h>
#include "rcutils/strdup.h"
#include "rcutils/snprintf.h"
#include "rcutils/shared_library.h"
#ifdef VP_PROOF
size_t g_re_w;
#endif

// the dynamic loader
static struct
{
  char lib;                 // its address is the handle
  char other;
  int opens, closes;        // references taken and dropped
  bool open_fails, info_fails, close_fails, has, null_symbol;
  bool error;               // an error is pending
  const char * path;        // what was asked for
  const char * symbol;
} g_dl;
static struct link_map g_map;
static size_t pl;           // length of the path the loader reports
static char g_sym;
static char g_errtext[2];
static void * vp_dlopen(const char * path, int mode)
{
  VP_CHECK(path == g_dl.path, "the caller's path is loaded");
  VP_CHECK((mode & (RTLD_LAZY | RTLD_NOW)) != 0 && !(mode & RTLD_NOLOAD), "a mode that loads");
  if (g_dl.open_fails) {g_dl.error = true; return NULL;}
  g_dl.opens++;
  return &g_dl.lib;
}
static int vp_dlclose(void * h)
{
  VP_CHECK(h == &g_dl.lib, "the loaded handle is closed");
  VP_CHECK(g_dl.opens > g_dl.closes, "a handle is closed once");
  g_dl.closes++;
  if (g_dl.close_fails) {g_dl.error = true; return vp_bool() ? 1 : -1;}
  return 0;
}
static void * vp_dlsym(void * h, const char * name)
{
  VP_CHECK(h == &g_dl.lib && name == g_dl.symbol, "the caller's symbol in the loaded library");
  if (!g_dl.has) {g_dl.error = true; return NULL;}
  return g_dl.null_symbol ? NULL : &g_sym;
}
static char * vp_dlerror(void)
{
  if (!g_dl.error) {return NULL;}
  g_dl.error = false;
  return g_errtext;
}
static int vp_dlinfo(void * h, int request, void * arg)
{
  VP_CHECK(h == &g_dl.lib && request == RTLD_DI_LINKMAP, "where the loaded library is");
  if (g_dl.info_fails) {g_dl.error = true; return -1;}
  *(struct link_map **)arg = &g_map;
  return 0;
}
#define dlopen vp_dlopen
#define dlclose vp_dlclose
#define dlsym vp_dlsym
#define dlerror vp_dlerror
#define dlinfo vp_dlinfo
static const char * g_dup;
char * rcutils_strdup(const char * s, rcutils_allocator_t a)
{
  if (s == NULL) {return NULL;}
  g_dup = s;
  size_t l = strlen(s);
  char * c = a.allocate(l + 1, a.state);
  if (c == NULL) {return NULL;}
#ifdef VP_PROOF
  if (g_w < l) {c[g_w] = s[g_w];}
#else
  for (size_t i = 0; i < l; ++i) {c[i] = s[i];}
#endif
  c[l] = 0;
  return c;
}
// the text lib<name>.so or lib<name>d.so, truncated to the size given
static size_t nl;
static const char * g_name;
static char g_tail[8];
static char vp_expected(size_t i, bool debug)
{
  static const char rel[] = ".so", deb[] = "d.so";
  if (i < 3) {return "lib"[i];}
  if (i < 3 + nl) {return g_name[i - 3];}
  size_t t = i - 3 - nl;
  if (debug) {return t < 4 ? deb[t] : 0;}
  return t < 3 ? rel[t] : 0;
}
static int g_fmt_calls;
static bool g_fmt_fails;
int rcutils_snprintf(char * buf, size_t size, const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  const char * s = va_arg(ap, const char *);
  va_end(ap);
  g_fmt_calls++;
  if (g_fmt_fails) {return -1;}
  // format: literal text with one %s
  size_t pre = 0, post = 0;
  while (f[pre] != 0 && f[pre] != '%') {++pre;}
  VP_CHECK(f[pre] == '%' && f[pre + 1] == 's', "one string conversion");
  while (f[pre + 2 + post] != 0 && f[pre + 2 + post] != '%') {++post;}
  VP_CHECK(f[pre + 2 + post] == 0, "one conversion only");
  size_t l = strlen(s), total = pre + l + post;
  size_t m = size == 0 ? 0 : total < size - 1 ? total : size - 1;
#ifdef VP_PROOF
  VP_CHECK(size == 0 || __CPROVER_w_ok(buf, m + 1), "formatted text stays inside the buffer");
  if (size > 0) {
    __CPROVER_havoc_slice(buf, m + 1);
    if (g_w < m) {buf[g_w] = g_w < pre ? f[g_w] : g_w < pre + l ? s[g_w - pre] : f[pre + 2 + (g_w - pre - l)];}
    buf[m] = 0;
  }
#else
  for (size_t i = 0; i < m; ++i) {buf[i] = i < pre ? f[i] : i < pre + l ? s[i - pre] : f[pre + 2 + (i - pre - l)];}
  if (size > 0) {buf[m] = 0;}
#endif
  if (total > INT_MAX) {return -1;}
  return (int)total;
}
#include "shared_library.c"

static char g_path[] = "x";
static rcutils_shared_library_t L;

void h_sl_load(void)
{
  rcutils_allocator_t a = vp_allocator(vp_bool());
  bool bad = vp_bool(), nulllib = vp_bool(), nullpath = vp_bool(), loaded = vp_bool();
  if (bad) {
    switch (vp_nd(3)) {
      case 0: a.allocate = NULL; break;
      case 1: a.deallocate = NULL; break;
      case 2: a.reallocate = NULL; break;
      default: a.zero_allocate = NULL; break;
    }
  }
  g_dl.open_fails = vp_bool(); g_dl.info_fails = vp_bool(); g_dl.close_fails = vp_bool();
  g_dl.error = vp_bool();
  pl = (size_t)vp_nd(VP_LIM(VP_MAXOBJ - 2, 4, 10));
  g_map.l_name = vp_input_str(pl, 0);
  g_w = (size_t)vp_nd(VP_LIM(UINT64_MAX, 4, 10));
  g_dl.path = nullpath ? NULL : g_path;
  L = rcutils_get_zero_initialized_shared_library();
  VP_CHECK(L.lib_pointer == NULL && L.library_path == NULL && L.allocator.allocate == NULL && L.allocator.state == NULL, "an unloaded handle is all zero");
  if (loaded) {L.lib_pointer = &g_dl.other;}
  rcutils_ret_t r = rcutils_load_shared_library(nulllib ? NULL : &L, g_dl.path, a);
  if (nulllib || nullpath || bad || loaded) {
    VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && g_dl.opens == 0 && g_al.calls == 0, "null arguments, invalid allocators and loaded handles are refused");
    VP_CHECK(L.library_path == NULL && L.lib_pointer == (loaded ? &g_dl.other : NULL) && L.allocator.allocate == NULL, "a refused call changes nothing");
    VP_REACH("refused");
    return;
  }
  if (r == RCUTILS_RET_OK) {
    VP_CHECK(!g_dl.open_fails && !g_dl.info_fails && !g_al.failed, "success only if every step succeeded");
    VP_CHECK(L.lib_pointer == &g_dl.lib && g_dl.opens == 1 && g_dl.closes == 0, "the handle holds the loaded library");
    VP_CHECK(g_al.live == 1 && L.library_path != NULL && L.library_path != g_map.l_name, "the handle owns its path");
    VP_CHECK(L.library_path[pl] == 0 && VP_IMP(g_w < pl, L.library_path[g_w] == g_map.l_name[g_w]), "the path is the one the loader reports");
    VP_CHECK(L.allocator.deallocate == a.deallocate && L.allocator.allocate == a.allocate && L.allocator.reallocate == a.reallocate &&
      L.allocator.zero_allocate == a.zero_allocate && L.allocator.state == a.state, "the handle keeps the allocator");
    VP_REACH("loaded");
  } else {
    VP_CHECK(g_dl.open_fails || g_dl.info_fails || g_al.failed, "failure only if a step failed");
    VP_CHECK(r == (g_dl.open_fails || g_dl.info_fails ? RCUTILS_RET_ERROR : RCUTILS_RET_BAD_ALLOC), "the failing step is reported");
    VP_CHECK(g_dl.opens == g_dl.closes && g_al.live == 0, "everything is released");
    VP_CHECK(L.lib_pointer == NULL && L.library_path == NULL, "the handle stays unloaded");
    VP_CHECK(g_err_set, "an error message is set");
    VP_REACH("failed");
  }
}

void h_sl_symbol(void)
{
  bool nulllib = vp_bool(), nullsym = vp_bool(), unloaded = vp_bool();
  g_dl.has = vp_bool(); g_dl.null_symbol = vp_bool();
  g_dl.error = vp_bool();   // an error of an earlier call of somebody else
  g_dl.symbol = nullsym ? NULL : g_path;
  L = rcutils_get_zero_initialized_shared_library();
  if (!unloaded) {L.lib_pointer = &g_dl.lib; g_dl.opens = 1; L.library_path = g_path;}
  rcutils_shared_library_t keep = L;
  bool exists = !nulllib && !nullsym && !unloaded && g_dl.has && !g_dl.null_symbol;
  if (vp_bool()) {
    void * s = rcutils_get_symbol(nulllib ? NULL : &L, g_dl.symbol);
    VP_CHECK(s == (exists ? &g_sym : NULL), "the symbol's address exactly if the library has it");
    VP_CHECK(g_err_set == (s == NULL), "an error is set exactly if there is no symbol");
    if (s) {VP_REACH("got");} else {VP_REACH("none");}
  } else {
    bool b = rcutils_has_symbol(nulllib ? NULL : &L, g_dl.symbol);
    VP_CHECK(b == exists, "true exactly if the library has the symbol");
    if (b) {VP_REACH("has");} else {VP_REACH("has not");}
  }
  VP_CHECK(rcutils_is_shared_library_loaded(&L) == !unloaded, "loaded exactly if there is a handle");
  VP_CHECK(!rcutils_is_shared_library_loaded(NULL), "no handle is not loaded");
  VP_CHECK(L.lib_pointer == keep.lib_pointer && L.library_path == keep.library_path && g_dl.closes == 0, "lookups change nothing");
}

void h_sl_unload(void)
{
  rcutils_allocator_t a = vp_allocator(false);
  bool nulllib = vp_bool(), unloaded = vp_bool(), nopath = vp_bool(), bad = vp_bool();
  g_dl.close_fails = vp_bool();
  g_dl.error = vp_bool();
  L = rcutils_get_zero_initialized_shared_library();
  L.allocator = a;
  if (bad) {
    switch (vp_nd(3)) {
      case 0: L.allocator.allocate = NULL; break;
      case 1: L.allocator.deallocate = NULL; break;
      case 2: L.allocator.reallocate = NULL; break;
      default: L.allocator.zero_allocate = NULL; break;
    }
  }
  if (!unloaded) {L.lib_pointer = &g_dl.lib; g_dl.opens = 1;}
  char * path = NULL;
  if (!nopath) {
    path = a.allocate(5, a.state);
    L.library_path = path;
  }
  rcutils_ret_t r = rcutils_unload_shared_library(nulllib ? NULL : &L);
  if (nulllib || unloaded || nopath || bad) {
    VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && g_dl.closes == 0 && g_al.live == !nopath, "null, unloaded and broken handles are refused");
    VP_CHECK(L.lib_pointer == (unloaded ? NULL : &g_dl.lib) && L.library_path == path, "a refused call changes nothing");
    VP_REACH("refused");
    return;
  }
  VP_CHECK(r == (g_dl.close_fails ? RCUTILS_RET_ERROR : RCUTILS_RET_OK), "the loader's verdict is reported");
  VP_CHECK(g_dl.closes == 1 && g_al.live == 0, "library and path are released exactly once");
  VP_CHECK(L.lib_pointer == NULL && L.library_path == NULL && L.allocator.allocate == NULL && L.allocator.deallocate == NULL &&
    L.allocator.state == NULL && !rcutils_is_shared_library_loaded(&L), "the handle can be loaded again");
  VP_REACH("unloaded");
}

void h_sl_name(void)
{
  bool debug = vp_bool(), nulln = vp_bool(), nullo = vp_bool();
  nl = (size_t)vp_nd(VP_LIM(VP_MAXOBJ - 10, 2, 10));
  g_name = vp_input_str(nl, 0);
  unsigned size = (unsigned)vp_nd(VP_LIM(UINT_MAX, 10, 24));
  char * buf = vp_buf(size);
  g_w = (size_t)vp_nd(VP_LIM(UINT64_MAX, 14, 24));
  g_fmt_fails = vp_bool();
  char old = g_w < size ? buf[g_w] : 0;
  rcutils_ret_t r = rcutils_get_platform_library_name(nulln ? NULL : g_name, nullo ? NULL : buf, size, debug);
  if (nulln || nullo) {
    VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && VP_IMP(g_w < size, buf[g_w] == old), "null arguments are refused");
    return;
  }
  size_t total = nl + (debug ? 7 : 6);
  if (r == RCUTILS_RET_OK) {
    VP_CHECK(total < size && !g_fmt_fails, "the name fits");
    VP_CHECK(buf[total] == 0, "the name is terminated");
    VP_CHECK(VP_IMP(g_w < total, buf[g_w] == vp_expected(g_w, debug)), "the name is lib<name>.so, or lib<name>d.so for a debug library");
    VP_CHECK(VP_IMP(g_w > total && g_w < size, buf[g_w] == old), "nothing after the name is written");
    VP_REACH("named");
  } else {
    VP_CHECK(r == RCUTILS_RET_ERROR && (total >= size || g_fmt_fails || total > INT_MAX), "refused only if it does not fit");
    VP_CHECK(g_err_set && VP_IMP(g_w < size && total <= INT_MAX, buf[g_w] == old), "an error is set and nothing is written");
    VP_REACH("refused");
  }
}
