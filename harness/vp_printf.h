// vsnprintf for CBMC (PROOF and BOUNDED): interprets constant format strings with literal text,
// %% %c %s %d %i %u (l, ll, z, j lengths, zero/blank padding, '-', width, precision, '*').
// Decimal digits are introduced by the contract of the conversion: digits d_i in 0..9 with
// sum d_i*10^i equal to the value.  Native mode uses the real function.
#ifndef VP_PRINTF_H_
#define VP_PRINTF_H_
#include "vp.h"
static bool g_printf_fail_allowed, g_printf_failed;
#ifndef VP_NATIVE
#ifndef VP_PF_STR
#define VP_PF_STR 40        // longest string argument
#endif
struct vp_pf {char * buf; size_t size; size_t pos;};
static struct {uint64_t v; unsigned char d[20]; unsigned n;} g_pf_num;   // the last number rendered, and its digits
static inline void vp_pf_c(struct vp_pf * o, char c)
{
  if (o->size > 0 && o->pos < o->size - 1) {o->buf[o->pos] = c;}
  o->pos++;
}
static void vp_pf_num(struct vp_pf * o, bool neg, uint64_t v, int width, int prec, bool zero, bool left)
{
  unsigned char d[20];
  uint64_t sum = 0;
  unsigned nd = 1;
#ifdef VP_PF_SEGMENTS
  // the digits themselves stay abstract (the harness speaks about "digit i of value v"); only
  // whether they fit into the requested width is tied to the value
  unsigned target = prec > 0 ? (unsigned)prec : zero && !left && width > (neg ? 1 : 0) ? (unsigned)width - neg : 0;
  (void)sum;
  nd = (unsigned)nondet_vp_u64();
  __CPROVER_assume(nd >= 1 && nd <= 20);
  if (target > 0 && target < 20) {
    uint64_t p10 = 1;
    for (unsigned i = 0; i < 19; ++i) {if (i < target) {p10 *= 10;}}
    __CPROVER_assume((v < p10) == (nd <= target));
  }
  for (unsigned i = 0; i < 20; ++i) {
    unsigned char x = (unsigned char)nondet_vp_u64();
    __CPROVER_assume(x <= 9 && VP_IMP(i >= nd, x == 0));
    d[i] = x;
  }
#else
  for (int i = 19; i >= 0; --i) {
    unsigned char x = (unsigned char)nondet_vp_u64();
    __CPROVER_assume(x <= 9);
    if (i == 19) {__CPROVER_assume(x <= 1);}
    if (i == 0 && d[19] == 1) {__CPROVER_assume(sum * 10 + x >= 10000000000000000000u);}  // no wrap
    d[i] = x;
    sum = sum * 10 + x;
    if (x != 0 && nd == 1) {nd = (unsigned)i + 1;}
  }
  __CPROVER_assume(sum == v);
#endif
  g_pf_num.v = v;
  for (int i = 0; i < 20; ++i) {g_pf_num.d[i] = d[i];}
  g_pf_num.n++;
  if (prec >= 0) {zero = false;}
  unsigned digits = nd;
  if (prec > 0 && (unsigned)prec > digits) {digits = (unsigned)prec;}
  if (zero && !left && width > 0 && (unsigned)width > digits + neg) {digits = (unsigned)width - neg;}
  unsigned pad = width > 0 && (unsigned)width > digits + neg ? (unsigned)width - digits - neg : 0;
  if (!left) {
    for (unsigned i = 0; i < pad; ++i) {vp_pf_c(o, ' ');}
  }
  if (neg) {vp_pf_c(o, '-');}
  unsigned want = prec > 0 ? (unsigned)prec : (zero && !left && width > 0) ? (unsigned)width - neg : 0;
  if (want >= 1 && want <= 20 && digits == want) {
    // zero padded and it fits: fixed positions
    for (int i = 19; i >= 0; --i) {
      if ((unsigned)i < want) {vp_pf_c(o, (char)('0' + d[i]));}
    }
  } else {
    for (int i = 24; i >= 0; --i) {
      if ((unsigned)i < digits) {vp_pf_c(o, i < 20 ? (char)('0' + d[i]) : '0');}
    }
  }
  if (left) {
    for (unsigned i = 0; i < pad; ++i) {vp_pf_c(o, ' ');}
  }
}
#ifdef VP_PF_SEGMENTS
// The output of a call that writes to g_pf_final is kept symbolically as a list of segments
// (single characters, decimal numbers with a minimum digit count, strings); the buffer itself is
// havocked.  The harness states its postcondition on the segments.
// One slot per conversion or literal character, so that slot numbers are constants; a slot may be empty.
struct vp_seg {int kind; bool neg; uint64_t value; unsigned min; unsigned len; char text[24];};   // kind: 1 char 2 number 3 string
static struct {struct vp_seg s[12]; unsigned n; char * buf; size_t size; unsigned calls;} g_seg;
static char * g_pf_final;
#define SEG_LAST g_seg.s[g_seg.n < 12 ? g_seg.n : 11]
static void vp_seg_c(char c) {SEG_LAST.kind = 1; SEG_LAST.text[0] = c; SEG_LAST.len = 1; g_seg.n++;}
static void vp_seg_num(bool neg, uint64_t v, unsigned min)
{
  SEG_LAST.kind = 2; SEG_LAST.neg = neg; SEG_LAST.value = v; SEG_LAST.min = min ? min : 1; SEG_LAST.len = 0;
  g_seg.n++;
}
#endif
static int vp_vsnprintf(char * buf, size_t size, const char * f, va_list ap)
{
  struct vp_pf o = {buf, size, 0};
#ifdef VP_PF_SEGMENTS
  bool fin = buf == g_pf_final;
  if (fin) {
    g_seg.n = 0;
    g_seg.calls++;
    g_seg.buf = buf;
    g_seg.size = size;
  }
#define IF_SEG(a, b) if (fin) {a;} else {b;}
#else
#define IF_SEG(a, b) {b;}
#endif
  if (g_printf_fail_allowed && vp_bool()) {
    g_printf_failed = true;
    return -1;
  }
#ifdef VP_PROOF
  VP_CHECK(size == 0 || __CPROVER_w_ok(buf, 1), "formatting into a valid buffer");
#endif
  for (; *f; ++f) {
    if (*f != '%') {
      IF_SEG(vp_seg_c(*f), vp_pf_c(&o, *f));
      continue;
    }
    ++f;
    bool zero = false, left = false;
    for (; *f == '0' || *f == '-'; ++f) {
      if (*f == '0') {zero = true;} else {left = true;}
    }
    int width = 0, prec = -1;
    if (*f == '*') {
      width = va_arg(ap, int);
      ++f;
    } else {
      for (; *f >= '0' && *f <= '9'; ++f) {width = width * 10 + (*f - '0');}
    }
    if (*f == '.') {
      ++f;
      prec = 0;
      if (*f == '*') {
        prec = va_arg(ap, int);
        ++f;
      } else {
        for (; *f >= '0' && *f <= '9'; ++f) {prec = prec * 10 + (*f - '0');}
      }
    }
    bool wide = false;
    for (; *f == 'l' || *f == 'z' || *f == 'j'; ++f) {wide = true;}
    switch (*f) {
      case '%': IF_SEG(vp_seg_c('%'), vp_pf_c(&o, '%')); break;
      case 'c': {char c = (char)va_arg(ap, int); IF_SEG(vp_seg_c(c), vp_pf_c(&o, c)); break;}
      case 's': {
          const char * s = va_arg(ap, const char *);
#ifdef VP_PF_SEGMENTS
          if (fin) {
            bool end = false;
            SEG_LAST.kind = 3;
            SEG_LAST.len = 0;
            for (unsigned i = 0; i < 23; ++i) {
              if (!end && (prec < 0 || i < (unsigned)prec) && s[i] != 0) {
                SEG_LAST.text[i] = s[i];
                SEG_LAST.len = i + 1;
              } else {
                end = true;
              }
            }
            VP_CHECK(end, "string argument within the model's limit");
            g_seg.n++;
            break;
          }
#endif
          for (int i = 0; i < VP_PF_STR && (prec < 0 || i < prec) && s[i] != 0; ++i) {vp_pf_c(&o, s[i]);}
          VP_CHECK(prec >= 0 && prec <= VP_PF_STR || strlen(s) <= VP_PF_STR, "string argument within the model's limit");
          break;
        }
      case 'd':
      case 'i': {
          int64_t v = wide ? va_arg(ap, long) : va_arg(ap, int);
          uint64_t uv = v < 0 ? 0 - (uint64_t)v : (uint64_t)v;
          IF_SEG(vp_seg_num(v < 0, uv, prec > 0 ? (unsigned)prec : zero && width > (v < 0) ? (unsigned)width - (v < 0) : 0),
          vp_pf_num(&o, v < 0, uv, width, prec, zero, left));
          break;
        }
      case 'u': {
          uint64_t v = wide ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
          IF_SEG(vp_seg_num(false, v, prec > 0 ? (unsigned)prec : zero ? (unsigned)width : 0),
          vp_pf_num(&o, false, v, width, prec, zero, left));
          break;
        }
      default:
        VP_CHECK(0, "format conversion outside the model");
    }
  }
#ifdef VP_PF_SEGMENTS
  if (fin) {
    if (size > 0) {
      VP_CHECK(__CPROVER_w_ok(buf, size), "formatting inside the caller's buffer");
      __CPROVER_havoc_slice(buf, size);
      buf[size - 1] = 0;
    }
    int r = (int)(unsigned)nondet_vp_u64();
    __CPROVER_assume(r >= 0);
    return r;
  }
#endif
  if (size > 0) {buf[o.pos < size - 1 ? o.pos : size - 1] = 0;}
  return (int)o.pos;
}
#define vsnprintf vp_vsnprintf
static int vp_snprintf(char * buf, size_t size, const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  int r = vp_vsnprintf(buf, size, f, ap);
  va_end(ap);
  return r;
}
#define snprintf vp_snprintf
#endif
#endif  // VP_PRINTF_H_
