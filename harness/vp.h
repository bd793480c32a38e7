// Harness layer shared by the three ways a contract is exercised.
//
//   VP_PROOF    the deciding mode: unbounded inputs, loop contracts spliced into the
//               mechanically extracted source, library/callee contracts instead of bodies.
//   VP_BOUNDED  fallback and counterexample search: same contract, real loops unrolled up to
//               a stated bound, every input comes from vp_nd() so a trace gives a vector.
//   VP_NATIVE   the same harness compiled with gcc+ASan/UBSan and run on a vector
//               (replay) or on pseudo-random inputs (search for a failing input).
#ifndef VP_H_
#define VP_H_

#include <assert.h>
#include <ctype.h>
#include <errno.h>
#include <inttypes.h>
#include <limits.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <dirent.h>
#include <unistd.h>
#include <dlfcn.h>
#include <math.h>

#ifdef VP_NATIVE
void vp_check_(int c, const char * msg, const char * file, int line);
void vp_discard_(void) __attribute__((noreturn));
uint64_t vp_nd(uint64_t max);
int vp_fuzzing(void);
#define VP_ASSUME(c) do {if (!(c)) {vp_discard_();}} while (0)
#define VP_CHECK(c, msg) vp_check_(!!(c), msg, __FILE__, __LINE__)
#define VP_REACH(msg) do {} while (0)
#define VP_LIM(p, b, n) ((uint64_t)(n))
#else
uint64_t nondet_vp_u64(void);
static inline uint64_t vp_nd(uint64_t max)
{
  uint64_t vp_nd_val = nondet_vp_u64();
  __CPROVER_assume(vp_nd_val <= max);
  return vp_nd_val;
}
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_CHECK(c, msg) __CPROVER_assert(c, "VP: " msg)
#define VP_REACH(msg) __CPROVER_assert(0, "VP_REACH: " msg)
#ifdef VP_PROOF
#define VP_LIM(p, b, n) ((uint64_t)(p))
#else
#define VP_LIM(p, b, n) ((uint64_t)(b))
#endif
#endif

#ifdef VP_PROOF
#define VP_REACHP(msg) VP_REACH(msg)
#else
#define VP_REACHP(msg) do {} while (0)
#endif
#define VP_IMP(a, b) (!(a) || (b))

static inline bool vp_bool(void) {return vp_nd(1) != 0;}
static inline char vp_char(void) {return (char)(unsigned char)vp_nd(255);}

// The largest object a caller can hold; real address spaces are smaller.
#define VP_MAXOBJ ((uint64_t)1 << 44)

// A buffer of exactly n bytes with arbitrary contents.
static inline char * vp_buf(size_t n)
{
  char * p = (char *)malloc(n ? n : 1);
  VP_ASSUME(p != NULL);
#ifndef VP_PROOF
  for (size_t i = 0; i < n; ++i) {
    p[i] = vp_char();
  }
#endif
  return p;
}

// A buffer of exactly n bytes, contents from a small alphabet in native search mode.
#ifdef VP_NATIVE
extern const char * vp_alphabet;
static inline char vp_achar(void)
{
  if (vp_fuzzing()) {
    char c = vp_alphabet[vp_nd(strlen(vp_alphabet) - 1)];
    return c;
  }
  return vp_char();
}
#else
#define vp_achar vp_char
#endif

// A C string of length n: no NUL in [0, n), NUL at n.
// PROOF mode cannot state "no NUL below n" without a quantifier; it is supplied at each point
// of use by VP_NONUL (instances of the precondition, never new facts).
static inline char * vp_cstr(size_t n)
{
  char * p = (char *)malloc(n + 1);
  VP_ASSUME(p != NULL);
#ifndef VP_PROOF
  for (size_t i = 0; i < n; ++i) {
    char c = vp_achar();
    VP_ASSUME(c != 0);
    p[i] = c;
  }
#endif
  p[n] = 0;
  return p;
}

#endif  // VP_H_
