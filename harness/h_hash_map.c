// C07, C08: hash maps, exercised through the public API against a model (native fallback of the units of h_hash_map_fn.c).
#include "vp.h"
#include "vp_str.h"
#include "vp_mem.h"
#include "vp_err.h"
#include "vp_alloc.h"
#include "rcutils/logging_macros.h"
#undef RCUTILS_LOG_ERROR_EXPRESSION
#define RCUTILS_LOG_ERROR_EXPRESSION(expression, ...) ((void)(expression))
#include "array_list.c"
#include "hash_map.c"

#define KS 2           // key bytes; the second byte is ignored by the comparison
#define DS 3           // data bytes
#define NK 6           // different keys
static size_t H[NK];   // their hashes
static bool have[NK];
static unsigned char key_of[NK][KS], val_of[NK][DS];
static size_t count;

static size_t hasher(const void * k)
{
  const unsigned char * c = k;
  VP_CHECK(c[0] < NK, "a whole key of the caller is hashed");
  return H[c[0]];
}
static int cmp(const void * a, const void * b)
{
  int x = ((const unsigned char *)a)[0], y = ((const unsigned char *)b)[0];
  return x - y;
}
static rcutils_hash_map_t m;

static void check_all(size_t w)
{
  // every key of the model, and every entry of the map
  size_t s = 77, c = 77;
  VP_CHECK(rcutils_hash_map_get_size(&m, &s) == RCUTILS_RET_OK && s == count, "the size is the number of keys");
  VP_CHECK(rcutils_hash_map_get_capacity(&m, &c) == RCUTILS_RET_OK && c != 0 && (c & (c - 1)) == 0, "the capacity is a power of two");
  unsigned char k[KS] = {(unsigned char)w, 9}, v[DS] = {1, 2, 3};
  VP_CHECK(rcutils_hash_map_key_exists(&m, k) == have[w], "a key exists exactly if it was set");
  rcutils_ret_t r = rcutils_hash_map_get(&m, k, v);
  VP_CHECK(r == (have[w] ? RCUTILS_RET_OK : RCUTILS_RET_NOT_FOUND), "a key is found exactly if it was set");
  if (have[w]) {
    VP_CHECK(v[0] == val_of[w][0] && v[1] == val_of[w][1] && v[2] == val_of[w][2], "the bytes set last are returned");
  } else {
    VP_CHECK(v[0] == 1 && v[1] == 2 && v[2] == 3, "nothing is written if the key is not found");
  }
}

static void iterate(void)
{
  bool seen[NK] = {0};
  unsigned char k[KS] = {0, 0}, v[DS] = {0, 0, 0}, prev[KS];
  for (size_t i = 0; i <= count; ++i) {
    memcpy(prev, k, KS);
    rcutils_ret_t r = rcutils_hash_map_get_next_key_and_data(&m, i == 0 ? NULL : prev, k, v);
    if (i == count) {
      VP_CHECK(r == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES, "the iteration ends after every entry");
      break;
    }
    VP_CHECK(r == RCUTILS_RET_OK && k[0] < NK && have[k[0]] && !seen[k[0]], "every entry is visited once");
    seen[k[0]] = true;
    VP_CHECK(k[1] == key_of[k[0]][1], "the key stored first is returned");
    VP_CHECK(v[0] == val_of[k[0]][0] && v[1] == val_of[k[0]][1] && v[2] == val_of[k[0]][2], "with its data");
  }
  for (size_t w = 0; w < NK; ++w) {
    if (!have[w]) {
      prev[0] = (unsigned char)w; prev[1] = 3;
      VP_CHECK(rcutils_hash_map_get_next_key_and_data(&m, prev, k, v) == RCUTILS_RET_NOT_FOUND, "a previous key that is not in the map is not found");
      break;
    }
  }
}

void h_hm_api(void)
{
  rcutils_allocator_t a = vp_allocator(false);
  m = rcutils_get_zero_initialized_hash_map();
#ifdef VP_NATIVE
  size_t cap = (size_t)vp_nd(9) + 1;
  size_t ops = (size_t)vp_nd(24);
  bool small = vp_bool();
  for (int i = 0; i < NK; ++i) {H[i] = small ? (size_t)vp_nd(3) : (size_t)vp_nd(UINT64_MAX);}
#else
  size_t cap = 2, ops = 3;
  for (int i = 0; i < NK; ++i) {H[i] = (size_t)vp_nd(7);}
#endif
  g_al.may_fail = vp_nd(3) == 1;
  rcutils_ret_t r = rcutils_hash_map_init(&m, cap, KS, DS, hasher, cmp, &a);
  if (r != RCUTILS_RET_OK) {
    VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && g_al.failed && g_al.live == 0 && m.impl == NULL, "failed initialization releases everything");
    VP_REACH("failed");
    return;
  }
  size_t c0 = 0;
  VP_CHECK(rcutils_hash_map_get_capacity(&m, &c0) == RCUTILS_RET_OK && c0 >= cap && c0 / 2 < cap, "the capacity is the smallest power of two not below the requested one");
  for (size_t i = 0; i < ops; ++i) {
    size_t w = (size_t)vp_nd(NK - 1);
    unsigned char k[KS] = {(unsigned char)w, (unsigned char)vp_nd(255)}, v[DS];
    for (int b = 0; b < DS; ++b) {v[b] = (unsigned char)vp_nd(255);}
    bool set = vp_nd(3) != 0;
    g_al.failed = false;
    g_al.may_fail = VP_LIM(1, 0, 1) && vp_nd(7) == 1;
    if (set) {
      r = rcutils_hash_map_set(&m, k, v);
      if (r == RCUTILS_RET_OK) {
        if (!have[w]) {
          have[w] = true;
          count++;
          key_of[w][1] = k[1];
        }
        val_of[w][0] = v[0]; val_of[w][1] = v[1]; val_of[w][2] = v[2];
      } else {
        VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && g_al.failed && !have[w], "setting fails only for a new key when memory runs out");
      }
    } else {
      r = rcutils_hash_map_unset(&m, k);
      VP_CHECK(r == RCUTILS_RET_OK, "unsetting always succeeds");
      if (have[w]) {have[w] = false; count--;}
    }
    g_al.may_fail = false;
    check_all(VP_LIM(1, 0, 1) && vp_bool() ? w : (size_t)vp_nd(NK - 1));
  }
  iterate();
  VP_REACH("end");
  VP_CHECK(rcutils_hash_map_fini(&m) == RCUTILS_RET_OK && m.impl == NULL && g_al.live == 0, "finalizing releases everything");
}
