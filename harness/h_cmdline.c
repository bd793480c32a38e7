// C22: command-line option lookup.
//VP unit=cli_exist prop=C22 funcs=rcutils_cli_option_exist loops=rcutils_cli_option_exist_0 unwind=6 bound="up to 3 arguments of up to 3 characters"
//VP unit=cli_get prop=C22 funcs=rcutils_cli_get_option loops=rcutils_cli_get_option_0 unwind=6 bound="up to 3 arguments of up to 3 characters"
//VP trust: strcmp is zero exactly for equal strings (per argument an arbitrary but fixed outcome in the proofs)
#include "vp.h"
#include "vp_str.h"
#include "rcutils/cmdline_parser.h"

static char ** args;      // n argument pointers, nothing after them
static size_t n, first;   // first: index of the first argument equal to the option, or n
static char * opt;

#ifdef VP_PROOF
static char * A;          // argument i is the string at A + i
// strcmp(argument i, option): non-zero below `first`, zero at `first`, arbitrary above
static int vp_strcmp(const char * a, const char * b)
{
  VP_CHECK(a == opt || b == opt, "arguments are compared with the option");
  const char * p = b == opt ? a : b;
  VP_CHECK(__CPROVER_same_object(p, A) && p >= A && (size_t)(p - A) < n, "only arguments in the range are compared");
  size_t i = (size_t)(p - A);
  int r = (int)vp_nd(UINT32_MAX);
  VP_ASSUME(VP_IMP(i < first, r != 0) && VP_IMP(i == first, r == 0));
  return r;
}
#define strcmp vp_strcmp
#define VP_LOOP_rcutils_cli_option_exist_0 \
  __CPROVER_assigns(i) \
  __CPROVER_loop_invariant(i <= n && i <= first) \
  __CPROVER_decreases(n - i)
#define VP_BODY_rcutils_cli_option_exist_0 VP_ASSUME(begin[i] == A + i);
#define VP_LOOP_rcutils_cli_get_option_0 \
  __CPROVER_assigns(idx) \
  __CPROVER_loop_invariant(idx <= n && idx <= first) \
  __CPROVER_decreases(n - idx)
#define VP_BODY_rcutils_cli_get_option_0 VP_ASSUME(begin[idx] == A + idx);
#endif

#include "cmdline_parser.c"

static void in(void)
{
  n = (size_t)vp_nd(VP_LIM(VP_MAXOBJ / 8, 3, 5));
#ifdef VP_PROOF
  first = (size_t)vp_nd(n);
  A = vp_buf(n + 1);
  opt = vp_buf(1);
  args = (char **)vp_buf(n * sizeof(char *));
  if (n > 0 && first < n) {VP_ASSUME(args[first] == A + first);}
  if (first + 1 < n) {VP_ASSUME(args[first + 1] == A + first + 1);}
#else
  opt = vp_input_str((size_t)vp_nd(3), 0);
  args = malloc(n * sizeof(char *));
  VP_ASSUME(args != NULL);
  first = n;
  for (size_t i = 0; i < n; ++i) {
    if (vp_bool()) {
      args[i] = opt;
    } else {
      args[i] = vp_input_str((size_t)vp_nd(3), 1);
    }
    if (first == n && 0 == strcmp(args[i], opt)) {first = i;}
  }
#endif
}

void h_cli_exist(void)
{
  in();
  bool r = rcutils_cli_option_exist(args, args + n, opt);
  VP_CHECK(r == (first < n), "an option exists exactly when some argument equals it");
  if (r) {VP_REACH("found");} else {VP_REACH("absent");}
}

void h_cli_get(void)
{
  in();
  char * r = rcutils_cli_get_option(args, args + n, opt);
  if (first + 1 < n) {
    VP_CHECK(r == args[first + 1], "the argument after the first occurrence is returned");
    VP_REACH("found");
  } else {
    VP_CHECK(r == NULL, "an absent or last option has no argument");
    if (first < n) {VP_REACH("last");} else {VP_REACH("absent");}
  }
}
