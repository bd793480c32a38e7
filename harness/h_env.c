// C23: environment access, against a model of the process environment's entry for one name.
//VP unit=env_set prop=C23,C31 funcs=rcutils_set_env,rcutils_set_env_overwrite unwind=8 bound="none: no loops in the code"
//VP unit=env_get prop=C23,C31 funcs=rcutils_get_env unwind=8 bound="none: no loops in the code"
//VP unit=env_home prop=C23 funcs=rcutils_get_home_dir,rcutils_get_env unwind=8 punwind=8 bound="none: no loops in the code"
//VP trust: getenv/setenv/unsetenv behave as POSIX specifies (modelled as one variable that can be set, unset, refused or fail)
#include "vp.h"
#include "vp_err.h"

static struct
{
  const char * value;  // NULL: not set
  bool invalid;        // the name is empty or contains '='
  bool fail;           // setting fails (out of memory)
  bool home;           // the variable is HOME
  const char * name;
  int writes;
} g_env;

static void vp_env_name(const char * name)
{
  VP_CHECK(name != NULL, "the environment is not asked for a null name");
  if (g_env.home) {
    VP_CHECK(name[0] == 'H' && name[1] == 'O' && name[2] == 'M' && name[3] == 'E' && name[4] == 0, "the home directory comes from HOME");
  } else {
    VP_CHECK(name == g_env.name, "exactly the named variable is accessed");
  }
}
static char * vp_getenv(const char * name)
{
  vp_env_name(name);
  return (char *)g_env.value;
}
static int vp_setenv(const char * name, const char * value, int overwrite)
{
  vp_env_name(name);
  VP_CHECK(value != NULL, "setenv needs a value");
  if (g_env.invalid || g_env.fail) {errno = g_env.invalid ? EINVAL : ENOMEM; return -1;}
  if (g_env.value == NULL || overwrite) {
    g_env.value = value;
    g_env.writes++;
  }
  return 0;
}
static int vp_unsetenv(const char * name)
{
  vp_env_name(name);
  if (g_env.invalid) {errno = EINVAL; return -1;}
  g_env.value = NULL;
  g_env.writes++;
  return 0;
}
#define getenv vp_getenv
#define secure_getenv vp_getenv
#define setenv vp_setenv
#define unsetenv vp_unsetenv
#define putenv(x) vp_unexpected_putenv(x)
#include "env.c"

static char g_name[2] = "N", g_old[2] = "o", g_new[2] = "n";
static const char * old;
static void env_in(void)
{
  g_env.name = g_name;
  g_env.invalid = vp_bool();
  g_env.fail = vp_bool();
  g_old[0] = (char)vp_nd(127);
  g_new[0] = (char)vp_nd(127);
  g_env.value = !g_env.invalid && vp_bool() ? g_old : NULL;
  old = g_env.value;
}

void h_env_set(void)
{
  env_in();
  const char * name = vp_bool() ? g_name : NULL;
  const char * value = vp_bool() ? g_new : NULL;
  bool overwrite = true, r;
  if (vp_bool()) {
    r = rcutils_set_env(name, value);
  } else {
    overwrite = vp_bool();
    r = rcutils_set_env_overwrite(name, value, overwrite);
  }
  if (name == NULL || g_env.invalid || (g_env.fail && value != NULL && (overwrite || old == NULL))) {
    VP_CHECK(!r && g_err_set, "null or invalid names and failures of the environment are reported");
    VP_CHECK(g_env.value == old && g_env.writes == 0, "and change nothing");
    VP_REACH("refused");
  } else {
    VP_CHECK(r && !g_err_set, "success");
    if (!overwrite && old != NULL) {
      VP_CHECK(g_env.value == old, "an existing variable is kept unless overwriting");
      VP_REACH("kept");
    } else {
      VP_CHECK(g_env.value == value, "the variable has exactly the new value, or is removed");
      VP_REACH("set");
    }
  }
}

void h_env_get(void)
{
  env_in();
  const char * name = vp_bool() ? g_name : NULL;
  const char * v = g_new;
  const char ** pv = vp_bool() ? &v : NULL;
  const char * e = rcutils_get_env(name, pv);
  VP_CHECK(g_env.writes == 0 && g_env.value == old, "reading changes nothing");
  if (name == NULL || pv == NULL) {
    VP_CHECK(e != NULL && v == g_new, "null arguments are refused");
    VP_REACH("refused");
  } else {
    VP_CHECK(e == NULL, "reading succeeds");
    VP_CHECK(old != NULL ? v == old : (v != NULL && v[0] == 0), "the value, or the empty string when not set");
    VP_REACH("read");
  }
}

void h_env_home(void)
{
  env_in();
  g_env.home = true;
  const char * h = rcutils_get_home_dir();
  VP_CHECK(h == (old == NULL || old[0] == 0 ? NULL : old), "HOME, or null when unset or empty");
  VP_CHECK(g_env.writes == 0, "reading changes nothing");
  if (h) {VP_REACH("home");} else {VP_REACH("no home");}
}
