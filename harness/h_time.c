//VP unit=time_ns_string prop=C13 funcs=rcutils_time_point_value_as_nanoseconds_string,rcutils_snprintf,rcutils_vsnprintf punwind=42 unwind=42 solver=cadical bound="none: loops bounded by operand width"
//VP unit=time_s_string prop=C13 funcs=rcutils_time_point_value_as_seconds_string,rcutils_snprintf,rcutils_vsnprintf punwind=42 unwind=42 solver=cadical arith=cvc5int bound="none: loops bounded by operand width"
//VP unit=time_date_string prop=C13 funcs=rcutils_time_point_value_as_date_string,rcutils_snprintf,rcutils_vsnprintf punwind=42 unwind=42 solver=cadical arith=cvc5int bound="none: loops bounded by operand width"
//VP unit=time_args prop=C13,C31 funcs=rcutils_time_point_value_as_nanoseconds_string,rcutils_time_point_value_as_seconds_string,rcutils_time_point_value_as_date_string punwind=42 unwind=42
//VP trust: vsnprintf by its C11 contract (decimal conversion contract: digits whose weighted sum is the value)
//VP trust: localtime_r returns calendar fields in their documented ranges (years 1000-9999) or fails; strftime of %Y-%m-%d %H:%M:%S prints those fields
#include "vp.h"
#include "vp_str.h"
#include "vp_err.h"
#ifdef VP_PROOF
#define VP_PF_SEGMENTS
#endif
#include "vp_printf.h"

static struct {struct tm tm; time_t arg; unsigned calls; bool fail;} g_lt;
static struct tm * vp_localtime_r(const time_t * t, struct tm * out)
{
  g_lt.arg = *t;
  g_lt.calls++;
  if (g_lt.fail) {return NULL;}
  *out = g_lt.tm;
  return out;
}
#define localtime_r vp_localtime_r
#ifndef VP_NATIVE
static size_t vp_strftime(char * s, size_t max, const char * f, const struct tm * tm)
{
  VP_CHECK(0 == strcmp(f, "%Y-%m-%d %H:%M:%S"), "date format is year-month-day hour:minute:second");
  char b[20];
  int v[6] = {tm->tm_year + 1900, tm->tm_mon + 1, tm->tm_mday, tm->tm_hour, tm->tm_min, tm->tm_sec};
  b[0] = (char)('0' + v[0] / 1000); b[1] = (char)('0' + v[0] / 100 % 10);
  b[2] = (char)('0' + v[0] / 10 % 10); b[3] = (char)('0' + v[0] % 10);
  for (int i = 1; i < 6; ++i) {
    b[1 + 3 * i] = i < 3 ? '-' : i == 3 ? ' ' : ':';
    b[2 + 3 * i] = (char)('0' + v[i] / 10); b[3 + 3 * i] = (char)('0' + v[i] % 10);
  }
  b[19] = 0;
  if (max < 20) {return 0;}
  for (int i = 0; i < 20; ++i) {s[i] = b[i];}
  return 19;
}
#define strftime vp_strftime
#endif
#include "snprintf.c"
#include "time.c"


static rcutils_time_point_value_t tp, tp0;
static char strbuf[40];
static char * const str = strbuf;
static char old;
static size_t size;

static void in(void)
{
  g_w = (size_t)vp_nd(39);
#if defined(VP_PROOF) || defined(VP_NATIVE)
  tp = tp0 = (int64_t)vp_nd(UINT64_MAX);
#else
  // bounded search: seconds 0..12, nanoseconds with few significant digits
  tp0 = (int64_t)(vp_nd(12) * 1000000000u + vp_nd(1) * 100000000u + vp_nd(9) * 1000000u + vp_nd(9));
  if (vp_bool()) {tp0 = -tp0;}
  tp = tp0;
#endif
  size = (size_t)vp_nd(40);
  for (int i = 0; i < 40; ++i) {strbuf[i] = vp_char();}
  old = str[g_w];
#ifdef VP_PF_SEGMENTS
  g_pf_final = str;
#endif
}

static uint64_t mag(void) {return tp0 < 0 ? 0u - (uint64_t)tp0 : (uint64_t)tp0;}

static bool split_ok(uint64_t s, uint64_t ns)   // (s, ns) is the quotient and remainder of |tp| by 10^9
{
  return ns < 1000000000u && s <= 9223372036u + 1 && s * 1000000000u + ns == mag();
}

// Expected text: optional '-', number a with at least m digits [, '.', number b with 9 digits]
static void expect_numbers(uint64_t a, unsigned m, bool frac, uint64_t b)
{
  bool neg = tp0 < 0;
#ifdef VP_PF_SEGMENTS
  VP_CHECK(g_seg.calls == 1 && g_seg.buf == str && g_seg.size == size, "the text is formatted into the caller's buffer, bounded by its size");
  VP_CHECK(g_seg.n <= 12, "few segments");
  // walk over the (constant number of) segments: [-] number [. number]
  int state = 0;          // 0: nothing yet, 1: minus seen, 2: first number, 3: point, 4: second number, 9: bad
  uint64_t v1 = 0, v2 = 0;
  bool minus = false;
  for (unsigned k = 0; k < 12; ++k) {
    if (k < g_seg.n) {
      struct vp_seg * q = &g_seg.s[k];
      if (q->kind == 2) {
        if (state <= 1) {
          VP_CHECK(q->min == m, "fixed width decimal number");
          VP_CHECK(!(q->neg && state == 1), "one sign");
          minus = q->neg || state == 1;
          v1 = q->value;
          state = 2;
        } else if (state == 3) {
          VP_CHECK(q->min == 9 && !q->neg, "nine fractional digits");
          v2 = q->value;
          state = 4;
        } else {
          state = 9;
        }
      } else if (q->len > 0) {
        if (q->len == 1 && q->text[0] == '-' && state == 0) {
          state = 1;
        } else if (q->len == 1 && q->text[0] == '.' && state == 2) {
          state = 3;
        } else {
          state = 9;
        }
      }
    }
  }
  VP_CHECK(state == (frac ? 4 : 2), "sign and number(s), nothing else");
  VP_CHECK(minus == neg, "a minus sign exactly for negative values");
  if (frac) {
    VP_CHECK(split_ok(v1, v2), "[arith] seconds.nanoseconds is the value of the time point");
  } else {
    VP_CHECK(v1 == a, "the number is the value of the time point");
  }
  VP_CHECK(str[size - 1] == 0, "terminated");
#else
  char e[40];
  unsigned n = 0, w = m;
  uint64_t t = a;
  if (neg) {e[n++] = '-';}
  for (int i = (int)w - 1; i >= 0; --i) {e[n + (unsigned)i] = (char)('0' + t % 10); t /= 10;}
  n += w;
  if (frac) {
    e[n++] = '.';
    t = b;
    for (int i = 8; i >= 0; --i) {e[n + (unsigned)i] = (char)('0' + t % 10); t /= 10;}
    n += 9;
  }
  size_t c = n < size - 1 ? n : size - 1;
  VP_CHECK(str[c] == 0, "text is terminated at min(length, size-1)");
  VP_CHECK(VP_IMP(g_w < c, str[g_w] == e[g_w]), "every character is the expected one");
#endif
  VP_CHECK(VP_IMP(g_w >= size, str[g_w] == old), "nothing beyond the buffer is written");
}

void h_time_ns_string(void)
{
  in();
  VP_ASSUME(size > 0);
  rcutils_ret_t r = rcutils_time_point_value_as_nanoseconds_string(&tp, str, size);
  VP_CHECK(r == RCUTILS_RET_OK && tp == tp0, "conversion succeeds");
  expect_numbers(mag(), 19, false, 0);
  VP_REACH("end");
}

void h_time_s_string(void)
{
  in();
  VP_ASSUME(size > 0);
  rcutils_ret_t r = rcutils_time_point_value_as_seconds_string(&tp, str, size);
  VP_CHECK(r == RCUTILS_RET_OK && tp == tp0, "conversion succeeds");
#ifdef VP_PROOF
  expect_numbers(0, 10, true, 0);
#else
  expect_numbers(mag() / 1000000000u, 10, true, mag() % 1000000000u);
#endif
  VP_REACH("end");
}

void h_time_date_string(void)
{
  in();
  VP_ASSUME(size > 0);
  VP_ASSUME(tp0 >= 0);   // the date rendering of times before the epoch is unspecified
  g_lt.fail = vp_bool();
  int y = (int)vp_nd(8999) + 1000, mo = (int)vp_nd(11), d = (int)vp_nd(30) + 1, h = (int)vp_nd(23),
    mi = (int)vp_nd(59), s = (int)vp_nd(60);
  g_lt.tm.tm_year = y - 1900; g_lt.tm.tm_mon = mo; g_lt.tm.tm_mday = d; g_lt.tm.tm_hour = h;
  g_lt.tm.tm_min = mi; g_lt.tm.tm_sec = s;
  rcutils_ret_t r = rcutils_time_point_value_as_date_string(&tp, str, size);
  VP_CHECK(tp == tp0, "time point unchanged");
  VP_CHECK(g_lt.calls == 1, "local time is computed once");
  VP_CHECK(g_lt.arg >= 0 && split_ok((uint64_t)g_lt.arg, mag() - (uint64_t)g_lt.arg * 1000000000u),
    "[arith] the date is that of the time point's second");
  if (g_lt.fail) {
    VP_CHECK(r == RCUTILS_RET_ERROR && g_err_set, "failure to get the local time is reported");
    return;
  }
  VP_CHECK(r == RCUTILS_RET_OK, "conversion succeeds");
  uint64_t ns = (mag() - (uint64_t)g_lt.arg * 1000000000u);
  char e[24];
  int v[6] = {y, mo + 1, d, h, mi, s};
  e[0] = (char)('0' + y / 1000); e[1] = (char)('0' + y / 100 % 10);
  e[2] = (char)('0' + y / 10 % 10); e[3] = (char)('0' + y % 10);
  for (int i = 1; i < 6; ++i) {
    e[1 + 3 * i] = i < 3 ? '-' : i == 3 ? ' ' : ':';
    e[2 + 3 * i] = (char)('0' + v[i] / 10); e[3 + 3 * i] = (char)('0' + v[i] % 10);
  }
#ifdef VP_PF_SEGMENTS
  VP_CHECK(g_seg.calls == 1 && g_seg.buf == str && g_seg.size == size, "the text is formatted into the caller's buffer, bounded by its size");
  VP_CHECK(g_seg.n <= 12, "few segments");
  e[19] = '.';
  // the milliseconds: either the three leading digits of the nine-digit nanoseconds rendered before ...
  bool direct = g_seg.n > 0 && g_seg.n <= 12 && g_seg.s[g_seg.n <= 12 ? g_seg.n - 1 : 0].kind == 2;
  e[20] = (char)('0' + g_pf_num.d[8]); e[21] = (char)('0' + g_pf_num.d[7]); e[22] = (char)('0' + g_pf_num.d[6]);
  VP_CHECK(direct || g_pf_num.n == 1, "the nanoseconds are rendered once");
  VP_CHECK(g_pf_num.n == 0 || g_pf_num.v == ns, "[arith] the rendered nanoseconds are those of the time point");
  size_t j = g_w, len = 0;
  bool found = false;
  for (unsigned k = 0; k < 12; ++k) {
    if (k < g_seg.n) {
      if (g_seg.s[k].kind == 2) {
        // ... or a number of at least three digits at the end that is the millisecond count
        uint64_t ms = g_seg.s[k].value;
        VP_CHECK(k + 1 == g_seg.n && len == 20 && !g_seg.s[k].neg && g_seg.s[k].min == 3, "milliseconds come last, three digits");
        VP_CHECK(ms <= 999 && ms * 1000000u <= ns && ns < (ms + 1) * 1000000u, "[arith] the milliseconds are those of the time point");
        len += 3;
      } else {
        len += g_seg.s[k].len;
        if (!found) {
          if (j < g_seg.s[k].len) {
            found = true;
            VP_CHECK(VP_IMP(g_w < (direct ? 20 : 23), g_seg.s[k].text[j] == e[g_w]), "every character is the expected one");
          } else {
            j -= g_seg.s[k].len;
          }
        }
      }
    }
  }
  VP_CHECK(len == 23, "date, time and milliseconds");
  VP_CHECK(str[size - 1] == 0, "terminated");
#else
  unsigned ms = (unsigned)(ns / 1000000u);
  e[19] = '.'; e[20] = (char)('0' + ms / 100); e[21] = (char)('0' + ms / 10 % 10); e[22] = (char)('0' + ms % 10);
  size_t m = 23 < size - 1 ? 23 : size - 1;
  VP_CHECK(str[m] == 0, "text is terminated inside the buffer");
  VP_CHECK(VP_IMP(g_w < m, str[g_w] == e[g_w]), "every character is the expected one");
#endif
  VP_CHECK(VP_IMP(g_w >= size, str[g_w] == old), "nothing beyond the buffer is written");
  VP_REACH("end");
}

void h_time_args(void)
{
  in();
  bool nt = vp_bool(), ns = vp_bool();
  if (!nt && !ns) {size = 0;}
  rcutils_ret_t want = nt || ns ? RCUTILS_RET_INVALID_ARGUMENT : RCUTILS_RET_OK;
  rcutils_ret_t r;
  switch (vp_nd(2)) {
    case 0: r = rcutils_time_point_value_as_nanoseconds_string(nt ? NULL : &tp, ns ? NULL : str, size); break;
    case 1: r = rcutils_time_point_value_as_seconds_string(nt ? NULL : &tp, ns ? NULL : str, size); break;
    default: r = rcutils_time_point_value_as_date_string(nt ? NULL : &tp, ns ? NULL : str, size);
  }
  VP_CHECK(r == want, "null time point or string is invalid; size zero is accepted");
  VP_CHECK(str[g_w] == old && tp == tp0, "nothing is written");
  VP_CHECK(VP_IMP(want != RCUTILS_RET_OK, g_err_set), "an error message is set");
  VP_REACH("end");
}
