// memcpy/memmove/memset by contract in PROOF mode.  The destination slice is havocked and the byte
// at object offset g_w (and g_w2) of the destination object gets its specified value: the
// universally quantified copy contract, instantiated at the witnesses.
#ifndef VP_MEM_H_
#define VP_MEM_H_
#include "vp.h"
#include "vp_str.h"
#ifdef VP_PROOF
static size_t g_w2;

static inline void vp_slice_copy(void * dst, const void * src, size_t n)
{
  size_t off = (size_t)__CPROVER_POINTER_OFFSET(dst);
  unsigned char b1 = 0, b2 = 0;
  bool h1 = g_w >= off && g_w - off < n, h2 = g_w2 >= off && g_w2 - off < n;
  if (h1) {b1 = ((const unsigned char *)src)[g_w - off];}
  if (h2) {b2 = ((const unsigned char *)src)[g_w2 - off];}
  if (n > 0) {__CPROVER_havoc_slice(dst, n);}
  if (h1) {((unsigned char *)dst)[g_w - off] = b1;}
  if (h2) {((unsigned char *)dst)[g_w2 - off] = b2;}
}

// A harness may supply cuts: each argument is first checked to equal an expected expression (an
// obligation marked [arith], solved on its own), which then replaces it.
#ifndef VP_CUT_DST
#define VP_CUT_DST(p) (p)
#define VP_CUT_SRC(p) (p)
#define VP_CUT_LEN(n) (n)
#endif

static void * vp_memcpy(void * dst, const void * src, size_t n)
{
  dst = VP_CUT_DST(dst); src = VP_CUT_SRC(src); n = VP_CUT_LEN(n);
  VP_CHECK(n == 0 || __CPROVER_r_ok(src, n), "memcpy reads inside the source object");
  VP_CHECK(n == 0 || __CPROVER_w_ok(dst, n), "memcpy writes inside the destination object");
  VP_CHECK(n == 0 || !__CPROVER_same_object(dst, src) || (const char *)dst + n <= (const char *)src ||
    (const char *)src + n <= (const char *)dst, "memcpy regions do not overlap");
  vp_slice_copy(dst, src, n);
  return dst;
}

static void * vp_memmove(void * dst, const void * src, size_t n)
{
  dst = VP_CUT_DST(dst); src = VP_CUT_SRC(src); n = VP_CUT_LEN(n);
  VP_CHECK(n == 0 || __CPROVER_r_ok(src, n), "memmove reads inside the source object");
  VP_CHECK(n == 0 || __CPROVER_w_ok(dst, n), "memmove writes inside the destination object");
  vp_slice_copy(dst, src, n);
  return dst;
}

static void * vp_memset(void * dst, int c, size_t n)
{
  VP_CHECK(n == 0 || __CPROVER_w_ok(dst, n), "memset writes inside the destination object");
  size_t off = (size_t)__CPROVER_POINTER_OFFSET(dst);
  if (n > 0) {__CPROVER_havoc_slice(dst, n);}
  if (g_w >= off && g_w - off < n) {((unsigned char *)dst)[g_w - off] = (unsigned char)c;}
  if (g_w2 >= off && g_w2 - off < n) {((unsigned char *)dst)[g_w2 - off] = (unsigned char)c;}
  return dst;
}
#define memcpy vp_memcpy
#define memmove vp_memmove
#define memset vp_memset
#endif
#ifdef VP_BOUNDED
static void * vp_memcpy_b(void * dst, const void * src, size_t n)
{
  for (size_t i = 0; i < n; ++i) {((char *)dst)[i] = ((const char *)src)[i];}
  return dst;
}
static void * vp_memmove_b(void * dst, const void * src, size_t n)
{
  if (n > 0 && __CPROVER_same_object(dst, src) && (const char *)dst > (const char *)src) {
    for (size_t i = n; i > 0; --i) {((char *)dst)[i - 1] = ((const char *)src)[i - 1];}
    return dst;
  }
  return vp_memcpy_b(dst, src, n);
}
static void * vp_memset_b(void * dst, int c, size_t n)
{
  for (size_t i = 0; i < n; ++i) {((char *)dst)[i] = (char)c;}
  return dst;
}
#define memcpy vp_memcpy_b
#define memmove vp_memmove_b
#define memset vp_memset_b
#endif
#endif  // VP_MEM_H_
