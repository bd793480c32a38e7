// C27: process identity.
//VP unit=process_pid prop=C27 funcs=rcutils_get_pid unwind=2 bound="none: no loops"
//VP unit=process_name prop=C27,C30,C31 funcs=rcutils_get_executable_name unwind=9 bound="invocation names up to 4 characters"
//VP trust: basename (POSIX) and getpid; strlen and memcpy by their C contracts
//VP trust: the supplied allocator behaves as malloc/realloc/free (fresh objects, may fail at any call)
#include "vp.h"
#include <libgen.h>
#undef basename
#include "vp_str.h"
#include "vp_mem.h"
#include "vp_err.h"
#include "vp_alloc.h"
#ifdef VP_PROOF
size_t g_re_w;
#endif
static char * name;          // the invocation name
static size_t len, b, bl;    // its length; its last component is [b, b + bl), or "." if it is empty
static char w_byte;          // byte g_w of the last component
static int g_pid;
static int vp_getpid(void) {return g_pid;}
#define getpid vp_getpid
#undef program_invocation_name
#define program_invocation_name name
#include "rcutils/strdup.h"

#ifdef VP_PROOF
// strdup by contract: a fresh exact copy, or NULL when memory runs out
char * rcutils_strdup(const char * s, rcutils_allocator_t a)
{
  VP_CHECK(s == name, "the invocation name is copied");
  char * c = a.allocate(len + 1, a.state);
  if (c == NULL) {return NULL;}
  c[len] = 0;
  if (g_w < bl && len > 0) {c[b + g_w] = w_byte;}
  g_s1.base = c;
  g_s1.len = len;
  return c;
}
static char * g_copy;
// basename: the last component, in the given string, or a static "."
static char * vp_basename(char * p)
{
  VP_CHECK(p != name, "basename may modify its argument, so it gets a copy");
  VP_CHECK(p == g_s1.base, "the base name of the whole invocation name");
  if (len == 0) {
    static char dot[2];
    dot[0] = '.'; dot[1] = 0;
    g_s1.base = dot;
    g_s1.len = 1;
    return dot;
  }
  p[b + bl] = 0;
  g_s1.base = p + b;
  g_s1.len = bl;
  return p + b;
}
#else
char * rcutils_strdup(const char * s, rcutils_allocator_t a)
{
  size_t l = strlen(s);
  char * c = a.allocate(l + 1, a.state);
  if (c) {memcpy(c, s, l + 1);}
  return c;
}
static char * vp_basename(char * p)
{
  static char dot[2];
  VP_CHECK(p != name, "basename may modify its argument, so it gets a copy");
  dot[0] = '.'; dot[1] = 0;
  size_t l = p ? strlen(p) : 0;
  if (l == 0) {return dot;}
  while (l > 1 && p[l - 1] == '/') {--l;}
  p[l] = 0;
  if (p[l - 1] == '/') {return p + l - 1;}
  while (l > 0 && p[l - 1] != '/') {--l;}
  return p + l;
}
#endif
#define basename vp_basename
#include "process.c"

void h_process_pid(void)
{
  g_pid = (int)vp_nd(INT_MAX);
  VP_CHECK(rcutils_get_pid() == g_pid, "the operating system's process id");
  VP_REACH("end");
}

void h_process_name(void)
{
  rcutils_allocator_t al = vp_allocator(vp_bool());
  bool bad = vp_bool();
  if (bad) {al.deallocate = NULL;}
  len = (size_t)vp_nd(VP_LIM(VP_MAXOBJ - 2, 4, 12));
  name = vp_input_str(len, 0);
  g_w = (size_t)vp_nd(VP_LIM(UINT64_MAX, 4, 12));
#ifdef VP_PROOF
  b = (size_t)vp_nd(VP_MAXOBJ);
  bl = (size_t)vp_nd(VP_MAXOBJ);
  VP_ASSUME(len == 0 ? (b == 0 && bl == 1) : (bl >= 1 && b + bl <= len));
  if (len == 0) {w_byte = '.';} else if (g_w < bl) {w_byte = name[b + g_w];}
  g_w2 = g_w;
#else
  if (len == 0) {
    b = 0; bl = 1;
    w_byte = '.';
  } else {
    size_t e = len;
    while (e > 1 && name[e - 1] == '/') {--e;}
    for (b = e; b > 0 && name[b - 1] != '/'; --b) {}
    if (b == e) {b = e - 1;}
    bl = e - b;
    w_byte = g_w < bl ? name[b + g_w] : 0;
  }
#endif
  char keep = g_w < len ? name[g_w] : 0;
  char * r = rcutils_get_executable_name(al);
  if (bad) {
    VP_CHECK(r == NULL && g_al.calls == 0, "an invalid allocator is refused");
    return;
  }
  VP_CHECK(VP_IMP(g_w < len, name[g_w] == keep), "the invocation name is not modified");
  if (r == NULL) {
    VP_CHECK(g_al.failed && g_al.live == 0, "null only when memory runs out, and nothing is leaked");
    VP_REACH("failed");
    return;
  }
  VP_CHECK(!g_al.failed && g_al.live == 1, "one string is handed out");
  VP_CHECK(r[bl] == 0 && VP_IMP(g_w < bl, r[g_w] == w_byte), "exactly the last path component");
  VP_REACH("named");
  if (len == 0) {VP_REACH("empty");}
  al.deallocate(r, al.state);
}
