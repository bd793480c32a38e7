// C01: find functions return the first/last position of a character.
//VP unit=findn prop=C01 funcs=rcutils_findn loops=rcutils_findn_0 enforce=rcutils_findn/contract_findn unwind=9 bound="strings up to 7 bytes"
//VP unit=find prop=C01 funcs=rcutils_find replace=rcutils_findn/contract_findn unwind=9 bound="strings up to 7 bytes"
//VP unit=find_lastn prop=C01 funcs=rcutils_find_lastn enforce=rcutils_find_lastn/contract_find_lastn unwind=9 bound="strings up to 7 bytes"
//VP unit=find_last prop=C01 funcs=rcutils_find_last replace=rcutils_find_lastn/contract_find_lastn unwind=9 bound="strings up to 7 bytes"
//VP trust: strlen and memrchr by their C library contracts (first NUL; last matching byte)
#include "vp.h"
#include "vp_str.h"

#ifndef VP_NATIVE
// memrchr(p, c, n): reads exactly [p, p+n); NULL if c does not occur, else the last occurrence.
static void * vp_memrchr(const void * p, int c, size_t n)
{
  const char * s = (const char *)p;
#ifdef VP_PROOF
  VP_CHECK(n == 0 || __CPROVER_r_ok(p, n), "memrchr reads inside the buffer");
  size_t r = (size_t)vp_nd(UINT64_MAX);
  if (vp_bool()) {
    VP_ASSUME(VP_IMP(g_w < n, s[g_w] != (char)c));
    return NULL;
  }
  VP_ASSUME(r < n);
  VP_ASSUME(s[r] == (char)c);
  VP_ASSUME(VP_IMP(r < g_w && g_w < n, s[g_w] != (char)c));
  return (void *)(s + r);
#else
  for (size_t i = n; i > 0; --i) {
    if (s[i - 1] == (char)c) {return (void *)(s + i - 1);}
  }
  return NULL;
#endif
}
#define memrchr vp_memrchr
#endif

// first occurrence, at the witness
#define FIRST_POST(r, s, d, n) \
  ((s) == NULL || (n) == 0 ? (r) == SIZE_MAX : \
  (VP_IMP((r) != SIZE_MAX, (r) < (n) && (s)[r] == (d)) && \
  VP_IMP(g_w < (n) && g_w < (r), (s)[g_w] != (d))))
#define LAST_POST(r, s, d, n) \
  ((s) == NULL || (n) == 0 ? (r) == SIZE_MAX : \
  (VP_IMP((r) != SIZE_MAX, (r) < (n) && (s)[r] == (d)) && \
  VP_IMP(g_w < (n) && ((r) == SIZE_MAX || g_w > (r)), (s)[g_w] != (d))))

#ifdef VP_PROOF
size_t contract_findn(const char * str, char delimiter, size_t string_length)
__CPROVER_requires(str == NULL || string_length == 0 || __CPROVER_r_ok(str, string_length))
__CPROVER_assigns()
__CPROVER_ensures(FIRST_POST(__CPROVER_return_value, str, delimiter, string_length))
;
size_t contract_find_lastn(const char * str, char delimiter, size_t string_length)
__CPROVER_requires(str == NULL || string_length == 0 || __CPROVER_r_ok(str, string_length))
__CPROVER_assigns()
__CPROVER_ensures(LAST_POST(__CPROVER_return_value, str, delimiter, string_length))
;
#define VP_LOOP_rcutils_findn_0 \
  __CPROVER_assigns(i) \
  __CPROVER_loop_invariant(i <= string_length) \
  __CPROVER_loop_invariant(VP_IMP(g_w < i, str[g_w] != delimiter)) \
  __CPROVER_decreases(string_length - i)
#endif

#include "find.c"

static char * s;
static size_t n;
static char d;

static void buf(void)
{
  g_w = (size_t)vp_nd(VP_LIM(UINT64_MAX, 8, 40));
  d = vp_achar();
  n = (size_t)vp_nd(VP_LIM(VP_MAXOBJ, 7, 40));
  if (vp_bool()) {
    s = NULL;
  } else {
    s = vp_buf(n);
  }
}

static void str(void)
{
  g_w = (size_t)vp_nd(VP_LIM(UINT64_MAX, 8, 40));
  d = vp_achar();
  n = (size_t)vp_nd(VP_LIM(VP_MAXOBJ, 7, 40));
  if (vp_bool()) {
    s = NULL;
  } else {
    s = vp_input_str(n, 0);
  }
}

void h_findn(void)
{
  buf();
  size_t r = rcutils_findn(s, d, n);
  VP_CHECK(FIRST_POST(r, s, d, n), "findn returns the first index of the character or SIZE_MAX");
  if (s && n > 2 && r == 2) {VP_REACH("found");}
  if (s && n > 2 && r == SIZE_MAX) {VP_REACH("absent");}
}

void h_find(void)
{
  str();
  size_t r = rcutils_find(s, d);
  VP_CHECK(FIRST_POST(r, s, d, n), "find returns the first index of the character or SIZE_MAX");
  if (s && n > 2 && r == 2) {VP_REACH("found");}
  if (s && n > 2 && r == SIZE_MAX) {VP_REACH("absent");}
}

void h_find_lastn(void)
{
  buf();
  size_t r = rcutils_find_lastn(s, d, n);
  VP_CHECK(LAST_POST(r, s, d, n), "find_lastn returns the last index of the character or SIZE_MAX");
  if (s && n > 2 && r == 0) {VP_REACH("found");}
  if (s && n > 2 && r == SIZE_MAX) {VP_REACH("absent");}
}

void h_find_last(void)
{
  str();
  size_t r = rcutils_find_last(s, d);
  VP_CHECK(LAST_POST(r, s, d, n), "find_last returns the last index of the character or SIZE_MAX");
  if (s && n > 2 && r == 0) {VP_REACH("found");}
  if (s && n > 2 && r == SIZE_MAX) {VP_REACH("absent");}
}
