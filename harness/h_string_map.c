// C09: string maps, exercised through the public API against a model (native fallback of the units of h_string_map_fn.c).
#include "vp.h"
#include "vp_str.h"
#include "vp_mem.h"
#include "vp_err.h"
#include "vp_alloc.h"
#include "strdup.c"
#include "string_map.c"

#define NK 7
static const char * const KEYS[NK] = {"", "a", "ab", "abc", "b", "ac", "abcd"};
static bool have[NK];
static char val_of[NK][4];
static size_t count;
static rcutils_string_map_t m;

// a copy of exactly the n first characters of s (terminated only if z), so that reading further is noticed
static char * copy_of(const char * s, size_t n, bool z)
{
  char * p = (malloc)(n + (z ? 1 : 0) + (n + z == 0));
  VP_ASSUME(p != NULL);
  for (size_t i = 0; i < n; ++i) {p[i] = s[i];}
  if (z) {p[n] = 0;}
  return p;
}
static void check_key(size_t w, const char * k, size_t n, bool limited)
{
  bool e = limited ? rcutils_string_map_key_existsn(&m, k, n) : rcutils_string_map_key_exists(&m, k);
  const char * v = limited ? rcutils_string_map_getn(&m, k, n) : rcutils_string_map_get(&m, k);
  VP_CHECK(e == have[w], "a key exists exactly if it was set");
  VP_CHECK((v != NULL) == have[w], "a key is found exactly if it was set");
  VP_CHECK(v == NULL || strcmp(v, val_of[w]) == 0, "the value set last is returned");
}
static void check_all(const rcutils_string_map_t * map)
{
  size_t s = 77, c = 77;
  VP_CHECK(rcutils_string_map_get_size(map, &s) == RCUTILS_RET_OK && s == count, "the size is the number of keys");
  VP_CHECK(rcutils_string_map_get_capacity(map, &c) == RCUTILS_RET_OK && c >= s, "the capacity is never below the size");
  size_t w = (size_t)vp_nd(NK - 1), n = strlen(KEYS[w]);
  char * z = copy_of(KEYS[w], n, true), * u = copy_of(KEYS[w], n, false);
  check_key(w, z, n, false);
  check_key(w, z, n + (size_t)vp_nd(2), true);
  check_key(w, u, n, true);
  if (strncmp("abcd", KEYS[w], n) == 0) {check_key(w, "abcd", n, true);}
  (free)(z); (free)(u);
  bool seen[NK] = {0};
  const char * k = NULL;
  for (size_t i = 0; i <= count; ++i) {
    k = rcutils_string_map_get_next_key(map, k);
    VP_CHECK((k != NULL) == (i < count), "the iteration visits as many keys as there are");
    if (k == NULL) {break;}
    size_t j = 0;
    while (j < NK && strcmp(KEYS[j], k) != 0) {++j;}
    VP_CHECK(j < NK && have[j] && !seen[j], "each exactly once");
    seen[j] = true;
  }
}
void h_sm_api(void)
{
#ifdef VP_NATIVE
  rcutils_allocator_t a = vp_allocator(false);
  m = rcutils_get_zero_initialized_string_map();
  size_t cap = (size_t)vp_nd(4), ops = (size_t)vp_nd(20);
  g_al.may_fail = vp_nd(3) == 1;
  rcutils_ret_t r = rcutils_string_map_init(&m, cap, a);
  if (r != RCUTILS_RET_OK) {
    VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && g_al.failed && g_al.live == 0 && m.impl == NULL, "failed initialization releases everything");
    return;
  }
  for (size_t i = 0; i < ops; ++i) {
    size_t w = (size_t)vp_nd(NK - 1), c = 0, c0 = 0;
    char v[4] = {(char)('p' + (int)vp_nd(9)), (char)('p' + (int)vp_nd(9)), 0, 0};
    if (vp_nd(5) == 0) {v[0] = 0;}
    g_al.failed = false;
    g_al.may_fail = vp_nd(5) == 1;
    rcutils_string_map_get_capacity(&m, &c0);
    char * k = copy_of(KEYS[w], strlen(KEYS[w]), true);
    switch (vp_nd(6)) {
      case 0: case 1:
        r = rcutils_string_map_set(&m, k, v);
        VP_CHECK(r == RCUTILS_RET_OK || (r == RCUTILS_RET_BAD_ALLOC && g_al.failed), "setting fails only when memory runs out");
        if (r == RCUTILS_RET_OK) {
          count += !have[w];
          have[w] = true;
          memcpy(val_of[w], v, 4);
        }
        break;
      case 2:
        r = rcutils_string_map_set_no_resize(&m, k, v);
        if (!have[w] && count == c0) {
          VP_CHECK(r == RCUTILS_RET_NOT_ENOUGH_SPACE, "a new key is refused when the map is full");
        } else {
          VP_CHECK(r == RCUTILS_RET_OK || (r == RCUTILS_RET_BAD_ALLOC && g_al.failed), "setting fails only when memory runs out");
        }
        if (r == RCUTILS_RET_OK) {
          count += !have[w];
          have[w] = true;
          memcpy(val_of[w], v, 4);
        }
        rcutils_string_map_get_capacity(&m, &c);
        VP_CHECK(c == c0, "without growing");
        break;
      case 3:
        r = rcutils_string_map_unset(&m, k);
        VP_CHECK(r == (have[w] ? RCUTILS_RET_OK : RCUTILS_RET_STRING_KEY_NOT_FOUND), "unsetting succeeds exactly if the key is there");
        count -= have[w];
        have[w] = false;
        break;
      case 4: {
          size_t want = (size_t)vp_nd(9);
          r = rcutils_string_map_reserve(&m, want);
          rcutils_string_map_get_capacity(&m, &c);
          VP_CHECK(r == RCUTILS_RET_OK || (r == RCUTILS_RET_BAD_ALLOC && g_al.failed && c == c0), "reserving fails only when memory runs out");
          VP_CHECK(r != RCUTILS_RET_OK || c == (want > count ? want : count), "exactly the requested capacity, but at least the size");
          break;
        }
      case 5:
        if (vp_nd(3) == 0) {
          VP_CHECK(rcutils_string_map_clear(&m) == RCUTILS_RET_OK, "clearing succeeds");
          rcutils_string_map_get_capacity(&m, &c);
          VP_CHECK(c == c0, "keeping the capacity");
          count = 0;
          memset(have, 0, sizeof(have));
        }
        break;
      default: {
          rcutils_string_map_t d = rcutils_get_zero_initialized_string_map();
          r = rcutils_string_map_init(&d, (size_t)vp_nd(3), a);
          if (r != RCUTILS_RET_OK) {break;}
          r = rcutils_string_map_copy(&m, &d);
          VP_CHECK(r == RCUTILS_RET_OK || (r == RCUTILS_RET_BAD_ALLOC && g_al.failed), "copying fails only when memory runs out");
          g_al.may_fail = false;
          rcutils_string_map_t was = m;
          if (r == RCUTILS_RET_OK) {
            m = d;
            check_all(&d);
            m = was;
          }
          VP_CHECK(rcutils_string_map_fini(&d) == RCUTILS_RET_OK && d.impl == NULL, "finalizing succeeds");
          break;
        }
    }
    (free)(k);
    g_al.may_fail = false;
    check_all(&m);
  }
  VP_REACH("end");
  VP_CHECK(rcutils_string_map_fini(&m) == RCUTILS_RET_OK && m.impl == NULL && g_al.live == 0, "finalizing releases everything");
#endif
}
