// Error-state functions by contract: they record that a message was set and touch nothing else.
// (error_handling.c is verified on its own.)
#ifndef VP_ERR_H_
#define VP_ERR_H_
#include "vp.h"
#include "rcutils/error_handling.h"
static bool g_err_set;
void rcutils_set_error_state(const char * s, const char * f, size_t l)
{
  (void)s; (void)f; (void)l;
  g_err_set = true;
}
bool rcutils_error_is_set(void) {return g_err_set;}
rcutils_error_string_t rcutils_get_error_string(void)
{
  static rcutils_error_string_t e;
  return e;
}
void rcutils_reset_error(void) {g_err_set = false;}
#undef RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING
#define RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(...) ((void)0)
#undef RCUTILS_SAFE_FWRITE_TO_STDERR
#define RCUTILS_SAFE_FWRITE_TO_STDERR(msg) ((void)(msg))
#undef RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING
#define RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(...) rcutils_set_error_state("", "", 0)
#endif  // VP_ERR_H_
