// C string library, by contract in PROOF mode (registered strings have a known length; for any
// other object the terminator is found by the universally quantified contract at witness g_w).
#ifndef VP_STR_H_
#define VP_STR_H_
#include "vp.h"

static size_t g_w;   // the witness index: arbitrary, fixed before the call

#ifdef VP_PROOF
static struct vp_str_s {const char * base; size_t len;} g_s0, g_s1, g_s2, g_s3;

static inline bool vp_in_str(const struct vp_str_s * s, const char * p)
{
  return s->base != NULL && __CPROVER_same_object(s->base, p) && p >= s->base &&
         (size_t)(p - s->base) <= s->len;
}

// strlen: p readable; result r is the distance to the first NUL at or after p.
static size_t vp_strlen(const char * p)
{
  VP_CHECK(p != NULL, "strlen of a null pointer");
  if (vp_in_str(&g_s0, p)) {return g_s0.len - (size_t)(p - g_s0.base);}
  if (vp_in_str(&g_s1, p)) {return g_s1.len - (size_t)(p - g_s1.base);}
  if (vp_in_str(&g_s2, p)) {return g_s2.len - (size_t)(p - g_s2.base);}
  if (vp_in_str(&g_s3, p)) {return g_s3.len - (size_t)(p - g_s3.base);}
  if (__CPROVER_OBJECT_SIZE(p) - (size_t)__CPROVER_POINTER_OFFSET(p) <= 8) {
    // a short literal
    if (p[0] == 0) {return 0;}
    if (p[1] == 0) {return 1;}
    if (p[2] == 0) {return 2;}
    if (p[3] == 0) {return 3;}
    if (p[4] == 0) {return 4;}
    if (p[5] == 0) {return 5;}
    if (p[6] == 0) {return 6;}
    if (p[7] == 0) {return 7;}
  }
  VP_CHECK(0, "strlen of something that is not a known NUL-terminated string");
  return 0;
}
#define strlen vp_strlen
#endif

#ifdef VP_BOUNDED
// libc functions CBMC has no body for
static void * vp_memchr_b(const void * p, int c, size_t n)
{
  const char * s = (const char *)p;
  for (size_t i = 0; i < n; ++i) {
    if (s[i] == (char)c) {return (void *)(s + i);}
  }
  return NULL;
}
static void * vp_memrchr_b(const void * p, int c, size_t n)
{
  const char * s = (const char *)p;
  for (size_t i = n; i > 0; --i) {
    if (s[i - 1] == (char)c) {return (void *)(s + i - 1);}
  }
  return NULL;
}
#define memchr vp_memchr_b
#define memrchr vp_memrchr_b
#endif

// Input string number k (0..3): registered in PROOF mode.
static inline char * vp_input_str(size_t n, int k)
{
  char * p = vp_cstr(n);
#ifdef VP_PROOF
  struct vp_str_s * s = k == 0 ? &g_s0 : k == 1 ? &g_s1 : k == 2 ? &g_s2 : &g_s3;
  s->base = p;
  s->len = n;
#else
  (void)k;
#endif
  return p;
}
#endif  // VP_STR_H_
