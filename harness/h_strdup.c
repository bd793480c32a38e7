//VP unit=strndup prop=C04,C30 funcs=rcutils_strndup unwind=9 bound="strings up to 6 bytes" dfcc=1 enforce=rcutils_strndup/contract_strndup
//VP unit=strdup prop=C04 funcs=rcutils_strdup unwind=9 bound="strings up to 6 bytes"
//VP trust: memchr, memcpy and strlen by their C library contracts
//VP trust: the supplied allocator behaves as malloc/realloc/free (fresh objects, may fail at any call)
#include "vp.h"
#include "vp_str.h"
#include "vp_mem.h"
#include "vp_alloc.h"
#include "rcutils/strdup.h"
#ifdef VP_PROOF
size_t g_re_w;
static void * vp_memchr(const void * p, int c, size_t n)
{
  const char * s = (const char *)p;
  VP_CHECK(c == 0 && vp_in_str(&g_s0, s), "memchr for the terminator of the input string");
  size_t r = g_s0.len - (size_t)(s - g_s0.base);
  if (r < n) {return (void *)(s + r);}
  VP_CHECK(__CPROVER_r_ok(p, n), "memchr reads inside the buffer");
  return NULL;
}
#define memchr vp_memchr
#endif

static char * s;
static size_t n, max_length, len;
static bool terminated, bad_alloc;
static char w_byte;
static rcutils_allocator_t al;

#define DUP_POST(r) \
  VP_IMP((r) != NULL, s != NULL && !bad_alloc && (r)[len] == 0 && VP_IMP(g_w < len, (r)[g_w] == w_byte))

#ifdef VP_PROOF
char * contract_strndup(const char * str, size_t max_length, rcutils_allocator_t allocator)
__CPROVER_assigns(__CPROVER_object_whole(&g_al))
__CPROVER_ensures(VP_IMP(__CPROVER_return_value != NULL, __CPROVER_is_fresh(__CPROVER_return_value, len + 1)))
__CPROVER_ensures(DUP_POST(__CPROVER_return_value))
;
#endif

#include "strdup.c"

static void in(void)
{
  g_w = (size_t)vp_nd(VP_LIM(UINT64_MAX, 6, 30));
  n = (size_t)vp_nd(VP_LIM(VP_MAXOBJ - 1, 6, 30));
  max_length = (size_t)vp_nd(UINT64_MAX);
  terminated = vp_bool();
  if (vp_bool()) {
    s = NULL;
  } else {
    if (!terminated) {VP_ASSUME(max_length <= n);}
    s = vp_input_str(n, 0);
    if (!terminated) {
      // exactly n bytes, no terminator anywhere: shrink the object
      char * t = vp_buf(n);
#ifdef VP_PROOF
      g_s0.base = t;
      if (g_w < n) {t[g_w] = s[g_w];}
#else
      for (size_t i = 0; i < n; ++i) {VP_ASSUME(t[i] != 0);}
#endif
      s = t;
    }
  }
  al = vp_allocator(vp_bool());
  bad_alloc = vp_bool();
  if (bad_alloc) {
    switch (vp_nd(3)) {
      case 0: al.allocate = NULL; break;
      case 1: al.deallocate = NULL; break;
      case 2: al.reallocate = NULL; break;
      default: al.zero_allocate = NULL;
    }
  }
}

static void post(char * r)
{
  if (s == NULL || bad_alloc) {
    VP_CHECK(r == NULL && g_al.live == 0, "null input or invalid allocator gives null and allocates nothing");
  } else if (r == NULL) {
    VP_CHECK(g_al.failed, "null result only when the allocation failed");
    VP_CHECK(g_al.live == 0, "nothing leaked on failure");
  } else {
    VP_REACH("copied");
    VP_CHECK(r != s, "result is a fresh string");
    VP_CHECK(r[len] == 0, "copy is terminated right after the copied bytes");
    VP_CHECK(VP_IMP(g_w < len, r[g_w] == w_byte), "every byte is copied");
    VP_CHECK(VP_IMP(g_w < len, s[g_w] == w_byte), "input unchanged");
    VP_CHECK(g_al.live == 1, "exactly one allocation is handed to the caller");
    al.deallocate(r, al.state);
    VP_CHECK(g_al.live == 0, "the caller can release the copy");
  }
}

void h_strndup(void)
{
  in();
  len = n < max_length ? n : max_length;
  if (s != NULL && g_w < n) {w_byte = s[g_w];}
  post(rcutils_strndup(s, max_length, al));
}

void h_strdup(void)
{
  in();
  VP_ASSUME(terminated);
  len = n;
  if (s != NULL && g_w < n) {w_byte = s[g_w];}
  post(rcutils_strdup(s, al));
}
