// C09: each function of the string map under contract, for maps, keys, values and histories of any size.
//VP unit=sm_api entry=h_sm_api prop=C09,C30 modes=native funcs=rcutils_string_map_init,rcutils_string_map_fini,rcutils_string_map_set,rcutils_string_map_set_no_resize,rcutils_string_map_unset,rcutils_string_map_getn,rcutils_string_map_key_existsn,rcutils_string_map_get_next_key,rcutils_string_map_reserve,rcutils_string_map_clear,rcutils_string_map_copy
//VP unit=sm_find prop=C09,C31 nentry=h_sm_api modes=proof defs=-DSM_FIND funcs=__get_index_of_key_if_exists loops=__get_index_of_key_if_exists_0
//VP unit=sm_set1 prop=C09,C30,C31 nentry=h_sm_api modes=proof defs=-DSM_SET1 funcs=rcutils_string_map_set_no_resize loops=rcutils_string_map_set_no_resize_0 replace=__get_index_of_key_if_exists/contract_find
//VP unit=sm_set prop=C09,C30 nentry=h_sm_api modes=proof defs=-DSM_SET funcs=rcutils_string_map_set replace=rcutils_string_map_set_no_resize/contract_set1,rcutils_string_map_reserve/contract_reserve
//VP unit=sm_get prop=C09,C31 nentry=h_sm_api modes=proof defs=-DSM_GET funcs=rcutils_string_map_get,rcutils_string_map_getn,rcutils_string_map_key_exists,rcutils_string_map_key_existsn,rcutils_string_map_get_size,rcutils_string_map_get_capacity replace=__get_index_of_key_if_exists/contract_find
//VP unit=sm_unset prop=C09,C30,C31 nentry=h_sm_api modes=proof defs=-DSM_UNSET funcs=rcutils_string_map_unset,__remove_key_and_value_at_index replace=__get_index_of_key_if_exists/contract_find
//VP unit=sm_next prop=C09,C31 nentry=h_sm_api modes=proof defs=-DSM_NEXT funcs=rcutils_string_map_get_next_key loops=rcutils_string_map_get_next_key_0,rcutils_string_map_get_next_key_1
//VP unit=sm_grow solver=z3new arith=z3new split=1 chunk=60 prop=C09,C30,C31 nentry=h_sm_api entry=h_sm_reserve modes=proof defs="-DSM_RESERVE -DSM_GROW" funcs=rcutils_string_map_reserve loops=rcutils_string_map_reserve_1
//VP unit=sm_shrink solver=z3new arith=z3new split=1 chunk=60 prop=C09,C30,C31 nentry=h_sm_api entry=h_sm_reserve modes=proof defs="-DSM_RESERVE -DSM_SHRINK" funcs=rcutils_string_map_reserve loops=rcutils_string_map_reserve_0
//VP unit=sm_clear prop=C09,C30,C31 nentry=h_sm_api modes=proof defs=-DSM_CLEAR funcs=rcutils_string_map_clear,__remove_key_and_value_at_index loops=rcutils_string_map_clear_0
//VP unit=sm_init prop=C09,C30 nentry=h_sm_api modes=proof defs=-DSM_INIT funcs=rcutils_string_map_init,rcutils_string_map_fini,rcutils_get_zero_initialized_string_map replace=rcutils_string_map_clear/contract_clear,rcutils_string_map_reserve/contract_reserve_if
//VP unit=sm_copy prop=C09,C30 nentry=h_sm_api modes=proof punwind=9 defs=-DSM_COPY funcs=rcutils_string_map_copy loops=rcutils_string_map_copy_0 replace=rcutils_string_map_get_next_key/contract_next,rcutils_string_map_get/contract_get,rcutils_string_map_set/contract_set
//VP trust: strlen, strncmp by their C contracts, rcutils_strdup by the contract proved for it in C04
//VP trust: the supplied allocator behaves as malloc/realloc/free (fresh objects, may fail at any call)
//VP trust: quantified invariants (distinct keys, key null iff value null, size = number of keys) are assumed at the slots the code touches and proved at an arbitrary witness slot
#ifndef VP_PROOF
#include "h_string_map.c"
#else
#include "vp.h"
#include "vp_str.h"
#include "vp_mem.h"
#include "vp_err.h"
#include "vp_alloc.h"
#include "rcutils/types/string_map.h"
size_t g_re_w;

#define MAXCAP ((size_t)1 << 40)
struct rcutils_string_map_impl_s;
struct vp_pair {char * key, * value;};            // same layout as key_value_pair_t (checked below)
static struct rcutils_string_map_impl_s * I;
static struct vp_pair * O;                        // the slots before the call
static size_t g_cap, g_size;                      // capacity and size before the call
static size_t * g_cnt;                            // g_cnt[i]: number of used slots before slot i
static size_t g_u;                                // second witness slot
static const char * g_key, * g_val;
static size_t g_klen, g_vlen;
// what the string functions say about the witness slot's key and the given key
static char * g_wk, * g_wv;
static size_t g_wklen;
static bool g_wcmp;                               // equal in the first g_klen characters
static bool g_found;
static size_t g_fi;
static size_t g_slot;
static bool g_slot_null;
static int g_wkf, g_wvf, g_other_f;               // how often the witness's key and value were freed

static size_t vp_keylen(const char * p)
{
  VP_CHECK(p != NULL, "strlen of a null pointer");
  if (p == g_key) {return g_klen;}
  if (p == g_wk) {return g_wklen;}
  return (size_t)vp_nd(VP_MAXOBJ);
}
#undef strlen
#define strlen vp_keylen
static int vp_keycmp(const char * a, const char * b, size_t n)
{
  VP_CHECK(a == g_key || b == g_key, "the given key is compared");
  const char * k = a == g_key ? b : a;
  VP_CHECK(k != NULL, "with a stored key");
  // neither string may be read beyond its end: the given key has g_klen characters
  VP_CHECK(n <= g_klen, "at most the given number of characters is compared");
  int r = (int)(unsigned)nondet_vp_u64();
  VP_ASSUME(VP_IMP(k == g_wk && n == g_klen, (r == 0) == g_wcmp));
  return r;
}
#undef strncmp
#define strncmp vp_keycmp
#define WMATCH (g_wk != NULL && g_wklen <= g_klen && g_wcmp)

static char g_nk, g_nv;                           // the copies of the given key and value
static int g_dups_k, g_dups_v;
static bool g_dup_failed;
static bool g_dup_may_fail;
char * rcutils_strdup(const char * s, rcutils_allocator_t al)
{
  VP_CHECK(al.state == &g_al_state, "copied with the map's allocator");
  VP_CHECK(s == g_key || s == g_val, "the given key or value is copied");
  if (g_dup_may_fail && vp_bool()) {g_dup_failed = true; return NULL;}
  if (s == g_key) {g_dups_k++; return &g_nk;}
  g_dups_v++;
  return &g_nv;
}
static int g_nkf, g_nvf;
static char * g_fk, * g_fv;                       // key and value of the slot found
static int g_fvf, g_fkf, g_pf;
static void * g_pairs_p;
static void dealloc_ghost(void * p, void * state)
{
  VP_CHECK(state == &g_al_state, "allocator called with its own state pointer");
  if (p == NULL) {return;}
  if (p == &g_nk) {g_nkf++;} else if (p == &g_nv) {g_nvf++;}
  else if (p == g_pairs_p) {g_pf++;}
  else if (p == g_fk) {g_fkf++;} else if (p == g_fv) {g_fvf++;}
  else if (p == g_wk) {g_wkf++;} else if (p == g_wv) {g_wvf++;}
  else {g_other_f++;}
}
static void * no_alloc(size_t n, void * state) {(void)n; (void)state; VP_CHECK(0, "no allocation here"); return NULL;}
static void * realloc_ghost(void * p, size_t n, void * state);
static void * no_zalloc(size_t k, size_t n, void * state) {(void)k; (void)n; (void)state; VP_CHECK(0, "no allocation here"); return NULL;}

#define DIST(a, b) ((a) == NULL || (a) != (b))
// instances of the invariants at slot i: the slot is as before the call, it is used or empty as a whole, its strings are nobody else's
#define INV_AT(i) \
  VP_ASSUME((O[i].key == NULL) == (O[i].value == NULL) && (O[i].key == NULL || O[i].key != O[i].value)); \
  VP_ASSUME(VP_IMP((i) != g_w, DIST(O[i].key, g_wk) && DIST(O[i].key, g_wv) && DIST(O[i].value, g_wk) && DIST(O[i].value, g_wv))); \
  VP_ASSUME(VP_IMP((i) != g_u, DIST(O[i].key, O[g_u].key))); \
  VP_ASSUME(O[i].key != &g_nk && O[i].key != &g_nv && O[i].value != &g_nk && O[i].value != &g_nv && DIST(O[i].key, (char *)g_key) && DIST(O[i].key, (char *)g_pairs_p) && DIST(O[i].value, (char *)g_pairs_p)); \
  VP_ASSUME(g_cnt[(i) + 1] == g_cnt[i] + (O[i].key != NULL) && g_cnt[i] <= (i) && g_cnt[(i) + 1] <= g_cnt[g_cap]);
#define SAME(p, q) ((p).key == (q).key && (p).value == (q).value)
#define EMPTY(p) ((p).key == NULL && (p).value == NULL)

#define VP_LOOP___get_index_of_key_if_exists_0 \
  __CPROVER_assigns(i, *index) \
  __CPROVER_loop_invariant(i <= g_cap && VP_IMP(g_w < i, !WMATCH)) \
  __CPROVER_decreases(g_cap - i)
#define VP_BODY___get_index_of_key_if_exists_0 VP_ASSUME(SAME(PAIRS[i], O[i])); INV_AT(i)
#define VP_LOOP_rcutils_string_map_set_no_resize_0 \
  __CPROVER_assigns(key_index, g_slot, g_slot_null) \
  __CPROVER_loop_invariant(key_index <= g_u) \
  __CPROVER_decreases(g_cap - key_index)
#define VP_BODY_rcutils_string_map_set_no_resize_0 g_slot = key_index; VP_ASSUME(SAME(PAIRS[key_index], O[key_index])); INV_AT(key_index) g_slot_null = O[key_index].key == NULL;
#define VP_LOOP_rcutils_string_map_get_next_key_0 \
  __CPROVER_assigns(i, given_key_found, start_index) \
  __CPROVER_loop_invariant(i <= g_cap && given_key_found == (g_given < i) && VP_IMP(given_key_found, start_index == g_given + 1)) \
  __CPROVER_decreases(g_cap - i)
#define VP_BODY_rcutils_string_map_get_next_key_0 VP_ASSUME(SAME(PAIRS[i], O[i])); VP_ASSUME((O[i].key == g_gkey) == (i == g_given));
#define VP_LOOP_rcutils_string_map_get_next_key_1 \
  __CPROVER_assigns(i, g_slot) \
  __CPROVER_loop_invariant(i <= g_cap && i >= start_index && VP_IMP(g_w >= start_index && g_w < i, g_wk == NULL)) \
  __CPROVER_decreases(g_cap - i)
#define VP_BODY_rcutils_string_map_get_next_key_1 VP_ASSUME(SAME(PAIRS[i], O[i])); g_slot = i;
#ifdef SM_SHRINK
#define VP_LOOP_rcutils_string_map_reserve_0 \
  __CPROVER_assigns(i, used, __CPROVER_object_whole(pairs)) \
  __CPROVER_loop_invariant(i <= g_cap && used == g_cnt[i] && used <= i && used <= g_cnt[g_cap]) \
  __CPROVER_loop_invariant(VP_IMP(g_w >= i, SAME(pairs[g_w], O[g_w])) && VP_IMP(g_w < i && g_wk != NULL, g_wpos < used && SAME(pairs[g_wpos], O[g_w]))) \
  __CPROVER_loop_invariant(VP_IMP(g_u >= used && g_u < i, EMPTY(pairs[g_u]))) \
  __CPROVER_decreases(g_cap - i)
#define VP_BODY_rcutils_string_map_reserve_0 VP_ASSUME(SAME(pairs[i], O[i])); INV_AT(i)
#endif
#ifdef SM_GROW
#define VP_LOOP_rcutils_string_map_reserve_1 \
  __CPROVER_assigns(i, __CPROVER_object_whole(string_map->impl->key_value_pairs)) \
  __CPROVER_loop_invariant(i >= g_cap && i <= capacity && VP_IMP(g_w < g_cap, SAME(string_map->impl->key_value_pairs[g_w], O[g_w]))) \
  __CPROVER_loop_invariant(VP_IMP(g_u >= g_cap && g_u < i, EMPTY(string_map->impl->key_value_pairs[g_u]))) \
  __CPROVER_decreases(capacity - i)
#endif
#define VP_LOOP_rcutils_string_map_clear_0 \
  __CPROVER_assigns(i, g_wkf, g_wvf, g_other_f, I->size, __CPROVER_object_whole(g_asg)) \
  __CPROVER_loop_invariant(i <= g_cap && g_cnt[i] <= g_size && I->size == g_size - g_cnt[i]) \
  __CPROVER_loop_invariant(VP_IMP(g_cap > 0 && g_w >= i, SAME(PAIRS[g_w], O[g_w])) && VP_IMP(g_w < i, EMPTY(PAIRS[g_w]))) \
  __CPROVER_loop_invariant(g_wkf == (g_w < i && g_wk != NULL) && g_wvf == (g_w < i && g_wk != NULL) && g_other_f >= 0 && (size_t)g_other_f <= 2 * i) \
  __CPROVER_decreases(g_cap - i)
#define VP_BODY_rcutils_string_map_clear_0 VP_ASSUME(SAME(PAIRS[i], O[i])); INV_AT(i) g_other_f = 0;
#define VP_LOOP_rcutils_string_map_copy_0 \
  __CPROVER_assigns(key, g_slot, g_wsets, g_failed, g_done, g_started) \
  __CPROVER_loop_invariant(g_failed == 0 && g_started == 1 && (g_done == 0 || g_done == 1) && g_done == (key == NULL) && VP_IMP(!g_done, g_slot < g_cap && key == O[g_slot].key && O[g_slot].value != NULL)) \
  __CPROVER_loop_invariant(g_wsets == (g_wk != NULL && g_w < g_cap && (g_done || g_w < g_slot))) \
  __CPROVER_decreases(g_done ? 0 : g_cap - g_slot)
#ifdef SM_RESERVE
// a call of reserve by itself: by contract
#define VP_REC_rcutils_string_map_reserve vp_rec_reserve
static rcutils_string_map_t m;
static bool g_rec;
static rcutils_ret_t g_rec_ret;
static size_t g_top;                              // what the caller asked for
static rcutils_ret_t vp_rec_reserve(rcutils_string_map_t * p, size_t capacity)
{
  VP_CHECK(p == &m && g_top < g_size && capacity == g_size && !g_rec, "reserve calls itself only with the size, when less was requested");
  g_rec = true;
  g_rec_ret = vp_bool() ? RCUTILS_RET_OK : RCUTILS_RET_BAD_ALLOC;
  return g_rec_ret;
}
#endif
static void * g_asg;                              // what the loop writes
static size_t g_given;
static const char * g_gkey;
static size_t g_wpos;
static int g_wsets;
static int g_failed, g_done, g_started;
static struct rcutils_string_map_impl_s * g_dimpl;
#define START(started, slot) ((started) ? (slot) + 1 : 0)
#define PAIRS (((rcutils_string_map_impl_t *)I)->key_value_pairs)
#include "string_map.c"
_Static_assert(sizeof(struct vp_pair) == sizeof(key_value_pair_t), "pairs");
#undef strlen
#undef strncmp

static rcutils_string_map_t m, dst;
static rcutils_allocator_t a;

static bool g_realloc_failed;
static size_t g_want;
static void * realloc_ghost(void * p, size_t n, void * state)
{
  VP_CHECK(state == &g_al_state, "allocator called with its own state pointer");
  VP_CHECK(p == g_pairs_p, "the slots are reallocated");
  VP_CHECK(g_want <= SIZE_MAX / sizeof(key_value_pair_t) && n == g_want * sizeof(key_value_pair_t) && n > 0, "to the size requested");
  if (n > VP_MAXOBJ || vp_bool()) {g_realloc_failed = true; return NULL;}
  key_value_pair_t * q = (malloc)(g_want * sizeof(key_value_pair_t));
  VP_ASSUME(q != NULL);
  if (p != NULL) {
    key_value_pair_t * o = p;
    size_t k = g_cap < g_want ? g_cap : g_want;
    if (g_w < k) {q[g_w] = o[g_w];}
    if (g_wpos < k) {q[g_wpos] = o[g_wpos];}
    if (g_u < k) {q[g_u] = o[g_u];}
    (free)(p);
  }
  return q;
}

bool contract_find(rcutils_string_map_impl_t * string_map_impl, const char * key, size_t key_length, size_t * index)
__CPROVER_requires(string_map_impl == I && key == g_key && key_length == g_klen && index != NULL)
__CPROVER_assigns(*index)
__CPROVER_ensures(__CPROVER_return_value == g_found && VP_IMP(g_found, *index == g_fi))
;
// at most g_budget more calls may be made
static int g_set1_calls, g_reserve_calls;
static rcutils_ret_t g_set1_ret, g_reserve_ret;
rcutils_ret_t contract_set1(rcutils_string_map_t * string_map, const char * key, const char * value)
__CPROVER_requires(string_map == &m && m.impl == I && key == g_key && value == g_val && g_set1_calls < 4)
__CPROVER_assigns(g_set1_calls, g_set1_ret)
__CPROVER_ensures(g_set1_calls == __CPROVER_old(g_set1_calls) + 1 && g_set1_ret == __CPROVER_return_value)
__CPROVER_ensures((__CPROVER_return_value == RCUTILS_RET_NOT_ENOUGH_SPACE) == (!g_found && I->size == I->capacity))
__CPROVER_ensures(__CPROVER_return_value == RCUTILS_RET_OK || __CPROVER_return_value == RCUTILS_RET_BAD_ALLOC || __CPROVER_return_value == RCUTILS_RET_NOT_ENOUGH_SPACE)
;
rcutils_ret_t contract_reserve(rcutils_string_map_t * string_map, size_t capacity)
__CPROVER_requires(string_map == &m && m.impl == I && I != NULL && g_reserve_calls < 4)
__CPROVER_assigns(g_reserve_calls, g_reserve_ret, I->capacity, I->key_value_pairs)
__CPROVER_ensures(g_reserve_calls == __CPROVER_old(g_reserve_calls) + 1 && g_reserve_ret == __CPROVER_return_value)
__CPROVER_ensures((__CPROVER_return_value == RCUTILS_RET_OK && I->capacity == (capacity < I->size ? I->size : capacity)) || (__CPROVER_return_value == RCUTILS_RET_BAD_ALLOC && I->capacity == __CPROVER_old(I->capacity) && capacity != 0))
;

// the specification's own reads are of existing slots
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"// reserve on a map that is being made or unmade
static int g_clears, g_uninit;
rcutils_ret_t contract_reserve_if(rcutils_string_map_t * string_map, size_t capacity)
__CPROVER_requires(string_map == &m && m.impl != NULL && ((rcutils_string_map_impl_t *)m.impl)->size == 0 && capacity == g_want && g_reserve_calls < 4)
__CPROVER_requires(g_uninit ? m.impl->capacity == 0 && m.impl->key_value_pairs == NULL && m.impl->allocator.state == &g_al_state : g_clears == 1)
__CPROVER_assigns(g_reserve_calls, g_reserve_ret, m.impl->capacity, m.impl->key_value_pairs)
__CPROVER_ensures(g_reserve_calls == __CPROVER_old(g_reserve_calls) + 1 && g_reserve_ret == __CPROVER_return_value)
__CPROVER_ensures((__CPROVER_return_value == RCUTILS_RET_OK && m.impl->capacity == capacity) || (__CPROVER_return_value == RCUTILS_RET_BAD_ALLOC && m.impl->capacity == __CPROVER_old(m.impl->capacity) && capacity != 0))
;
rcutils_ret_t contract_clear(rcutils_string_map_t * string_map)
__CPROVER_requires(string_map == &m && m.impl != NULL && g_clears < 4)
__CPROVER_assigns(g_clears, m.impl->size)
__CPROVER_ensures(__CPROVER_return_value == RCUTILS_RET_OK && m.impl->size == 0 && g_clears == __CPROVER_old(g_clears) + 1)
;
// the source map's iteration, lookups and the destination's sets
const char * contract_next(const rcutils_string_map_t * string_map, const char * key)
__CPROVER_requires(string_map == &m && m.impl == I && VP_IMP(key == NULL, !g_started) && VP_IMP(key != NULL, g_started && !g_done && g_slot < g_cap && key == O[g_slot].key))
__CPROVER_assigns(g_slot, g_done, g_started)
__CPROVER_ensures(g_started == 1 && (g_done == 0 || g_done == 1))
__CPROVER_ensures(VP_IMP(g_done, __CPROVER_return_value == NULL && VP_IMP(g_w < g_cap && g_w >= START(__CPROVER_old(g_started), __CPROVER_old(g_slot)), g_wk == NULL)))
__CPROVER_ensures(VP_IMP(!g_done, g_slot < g_cap && g_slot >= START(__CPROVER_old(g_started), __CPROVER_old(g_slot)) && __CPROVER_return_value == O[g_slot].key && O[g_slot].key != NULL && O[g_slot].value != NULL && VP_IMP(g_w == g_slot, g_wk != NULL) && VP_IMP(g_w >= START(__CPROVER_old(g_started), __CPROVER_old(g_slot)) && g_w < g_slot, g_wk == NULL)))
;
const char * contract_get(const rcutils_string_map_t * string_map, const char * key)
__CPROVER_requires(string_map == &m && m.impl == I && g_started && !g_done && g_slot < g_cap && key == O[g_slot].key)
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == O[g_slot].value)
;
rcutils_ret_t contract_set(rcutils_string_map_t * string_map, const char * key, const char * value)
__CPROVER_requires(string_map == &dst && dst.impl == g_dimpl && key != NULL && value != NULL && g_started && !g_done && !g_failed && g_slot < g_cap && key == O[g_slot].key && value == O[g_slot].value)
__CPROVER_assigns(g_wsets, g_failed)
__CPROVER_ensures((__CPROVER_return_value == RCUTILS_RET_OK && g_failed == __CPROVER_old(g_failed)) || (__CPROVER_return_value == RCUTILS_RET_BAD_ALLOC && g_failed == 1))
__CPROVER_ensures(g_wsets == __CPROVER_old(g_wsets) + (__CPROVER_return_value == RCUTILS_RET_OK && g_slot == g_w))
;

static void any_map(void)
{
  a = vp_allocator(false);
  a.allocate = no_alloc;
  a.zero_allocate = no_zalloc;
  a.reallocate = realloc_ghost;
  a.deallocate = dealloc_ghost;
  g_cap = (size_t)vp_nd(MAXCAP);
  I = (malloc)(sizeof *I);
  O = (malloc)((g_cap + 1) * sizeof(*O));
  g_cnt = (malloc)((g_cap + 1) * sizeof(*g_cnt));
  VP_ASSUME(I != NULL && O != NULL && g_cnt != NULL);
  I->key_value_pairs = NULL;
  if (g_cap > 0) {
    I->key_value_pairs = (malloc)(g_cap * sizeof(key_value_pair_t));
    VP_ASSUME(I->key_value_pairs != NULL);
  }
  g_pairs_p = I->key_value_pairs;
  I->capacity = g_cap;
  I->size = g_size = g_cnt[g_cap];
  I->allocator = a;
  m.impl = I;
  VP_ASSUME(g_cnt[0] == 0 && g_size <= g_cap);
  g_klen = (size_t)vp_nd(VP_MAXOBJ); g_vlen = (size_t)vp_nd(VP_MAXOBJ); g_wklen = (size_t)vp_nd(VP_MAXOBJ);
  g_wcmp = vp_bool();
  static char kk, vv;
  g_key = &kk; g_val = &vv;
  // the witness slots (when there are any)
  g_w = g_u = 0;
  if (g_cap > 0) {
    g_w = (size_t)vp_nd(VP_MAXOBJ); g_u = (size_t)vp_nd(VP_MAXOBJ);
    VP_ASSUME(g_w < g_cap && g_u < g_cap);
    VP_ASSUME(SAME(PAIRS[g_w], O[g_w]) && SAME(PAIRS[g_u], O[g_u]));
    g_wk = O[g_w].key; g_wv = O[g_w].value;
    INV_AT(g_w)
    INV_AT(g_u)
    g_wpos = g_cnt[g_w];
  }
}
#define UNTOUCHED() (m.impl == I && I->size == g_size && I->capacity == g_cap && PAIRS == g_pairs_p && (g_cap == 0 || SAME(PAIRS[g_w], O[g_w])) && g_wkf + g_wvf + g_fkf + g_fvf + g_nkf + g_nvf + g_other_f + g_pf == 0)

#ifdef SM_FIND
void h_sm_find(void)
{
  any_map();
  size_t index = 77;
  bool r = __get_index_of_key_if_exists(I, g_key, g_klen, &index);
  VP_CHECK(UNTOUCHED(), "searching changes nothing");
  if (r) {
    VP_CHECK(index < g_cap && VP_IMP(index == g_w, WMATCH), "the slot found holds an equal key");
    VP_REACH("found");
  } else {
    VP_CHECK(g_cap == 0 || !WMATCH, "no slot holds an equal key");
    VP_REACH("not found");
  }
}
#endif

#ifdef SM_SET1
void h_sm_set1(void)
{
  any_map();
  g_found = vp_bool();
  g_fi = (size_t)vp_nd(VP_MAXOBJ);
  bool e1 = vp_bool(), e2 = vp_bool(), e3 = vp_bool(), e4 = vp_bool();
  if (g_found) {
    VP_ASSUME(g_fi < g_cap);
    VP_ASSUME(SAME(PAIRS[g_fi], O[g_fi]));
    INV_AT(g_fi)
    VP_ASSUME(O[g_fi].key != NULL);
    if (g_fi != g_w) {g_fk = O[g_fi].key; g_fv = O[g_fi].value;}
  } else {
    // fewer keys than slots: some slot is free
    VP_ASSUME(VP_IMP(g_size < g_cap, O[g_u].key == NULL));
  }
  g_dup_may_fail = vp_bool();
  if (e4) {m.impl = NULL;}
  rcutils_ret_t r = rcutils_string_map_set_no_resize(e1 ? NULL : &m, e2 ? NULL : g_key, e3 ? NULL : g_val);
  if (e4) {
    m.impl = I;
  }
  if (e1 || e2 || e3 || e4) {
    VP_CHECK(r == (!e1 && e4 ? RCUTILS_RET_STRING_MAP_INVALID : RCUTILS_RET_INVALID_ARGUMENT) && UNTOUCHED() && g_dups_k + g_dups_v == 0, "invalid arguments are refused");
    return;
  }
  VP_CHECK(I->capacity == g_cap && PAIRS == g_pairs_p && m.impl == I, "the map is not resized");
  if (r != RCUTILS_RET_OK) {
    VP_CHECK(r == RCUTILS_RET_NOT_ENOUGH_SPACE ? (!g_found && g_size == g_cap) : (r == RCUTILS_RET_BAD_ALLOC && g_dup_failed), "setting fails only when the map is full or memory runs out");
    VP_CHECK(I->size == g_size && (g_cap == 0 || SAME(PAIRS[g_w], O[g_w])) && g_wkf + g_wvf + g_fkf + g_fvf + g_other_f == 0, "a failed set changes nothing");
    VP_CHECK(g_dups_k == g_nkf && g_dups_v == g_nvf, "and releases what it copied");
    VP_REACH("failed");
    return;
  }
  VP_CHECK(!g_dup_failed && g_dups_v == 1 && g_nvf == 0 && g_nkf == 0, "the value is copied");
  if (g_found) {
    VP_CHECK(PAIRS[g_fi].key == O[g_fi].key && PAIRS[g_fi].value == &g_nv && g_dups_k == 0 && I->size == g_size, "an existing key gets the new value");
    VP_CHECK(VP_IMP(g_fi == g_w, g_wvf == 1 && g_wkf == 0) && VP_IMP(g_fi != g_w, g_fvf == 1 && g_fkf == 0 && g_wvf + g_wkf == 0) && g_other_f == 0, "its old value is released, nothing else");
    VP_CHECK(VP_IMP(g_fi != g_w, SAME(PAIRS[g_w], O[g_w])), "no other slot changes");
    VP_REACH("replaced");
  } else {
    VP_CHECK(g_size < g_cap && g_slot < g_cap && g_slot_null && g_dups_k == 1, "a new key goes to a free slot");
    VP_CHECK(PAIRS[g_slot].key == &g_nk && PAIRS[g_slot].value == &g_nv && I->size == g_size + 1, "with a copy of the key and of the value, and counts");
    VP_CHECK(VP_IMP(g_slot != g_w, SAME(PAIRS[g_w], O[g_w])) && g_wkf + g_wvf + g_fkf + g_fvf + g_other_f == 0, "no other slot changes");
    VP_REACH("added");
  }
}
#endif

#ifdef SM_SET
void h_sm_set(void)
{
  any_map();
  g_found = vp_bool();
  bool e1 = vp_bool(), e2 = vp_bool(), e3 = vp_bool(), e4 = vp_bool();
  if (e4) {m.impl = NULL;}
  rcutils_ret_t r = rcutils_string_map_set(e1 ? NULL : &m, e2 ? NULL : g_key, e3 ? NULL : g_val);
  if (e1 || e2 || e3 || e4) {
    VP_CHECK(r == (!e1 && e4 ? RCUTILS_RET_STRING_MAP_INVALID : RCUTILS_RET_INVALID_ARGUMENT) && g_set1_calls + g_reserve_calls == 0, "invalid arguments are refused");
    return;
  }
  VP_CHECK(r == RCUTILS_RET_OK || r == RCUTILS_RET_BAD_ALLOC, "setting fails only when memory runs out");
  VP_CHECK(r == ((g_reserve_calls > 0 && g_reserve_ret != RCUTILS_RET_OK) ? g_reserve_ret : g_set1_ret), "and reports it");
  VP_CHECK(VP_IMP(r == RCUTILS_RET_OK, g_set1_calls > 0 && g_set1_ret == RCUTILS_RET_OK), "success means that the key was set");
  VP_CHECK(VP_IMP(g_found || g_size < g_cap, g_reserve_calls == 0), "the map grows only when it is full");
  if (r == RCUTILS_RET_OK) {VP_REACH("set");} else {VP_REACH("failed");}
}
#endif

#ifdef SM_GET
void h_sm_get(void)
{
  any_map();
  g_found = vp_bool();
  g_fi = (size_t)vp_nd(VP_MAXOBJ);
  VP_ASSUME(VP_IMP(g_found, g_fi < g_cap));
  char * fv = g_found ? PAIRS[g_fi].value : NULL;
  unsigned f = (unsigned)vp_nd(5), bad = (unsigned)vp_nd(3);
  rcutils_string_map_t none = rcutils_get_zero_initialized_string_map();
  VP_CHECK(none.impl == NULL, "a zero-initialized map has no storage");
  const rcutils_string_map_t * mp = bad == 1 ? NULL : bad == 2 ? &none : &m;
  const char * k = bad == 3 ? NULL : g_key;
  if (f <= 1) {
    const char * v = f == 0 ? rcutils_string_map_get(mp, k) : rcutils_string_map_getn(mp, k, g_klen);
    VP_CHECK(v == (bad || !g_found ? NULL : fv), "the value of the key, null if there is none");
    VP_REACH("get");
  } else if (f <= 3) {
    bool e = f == 2 ? rcutils_string_map_key_exists(mp, k) : rcutils_string_map_key_existsn(mp, k, g_klen);
    VP_CHECK(e == (!bad && g_found), "a key exists exactly if a slot holds it");
    VP_REACH("exists");
  } else {
    size_t n = 99;
    size_t * np = bad == 3 ? NULL : &n;
    rcutils_ret_t r = f == 4 ? rcutils_string_map_get_size(mp, np) : rcutils_string_map_get_capacity(mp, np);
    VP_CHECK(bad ? r == (bad == 2 ? RCUTILS_RET_STRING_MAP_INVALID : RCUTILS_RET_INVALID_ARGUMENT) && n == 99 : r == RCUTILS_RET_OK && n == (f == 4 ? g_size : g_cap), "size and capacity are reported");
    VP_REACH("sizes");
  }
  VP_CHECK(UNTOUCHED(), "reading changes nothing");
}
#endif

#ifdef SM_UNSET
void h_sm_unset(void)
{
  any_map();
  g_found = vp_bool();
  g_fi = (size_t)vp_nd(VP_MAXOBJ);
  if (g_found) {
    VP_ASSUME(g_fi < g_cap && g_size > 0);
    VP_ASSUME(SAME(PAIRS[g_fi], O[g_fi]));
    INV_AT(g_fi)
    VP_ASSUME(O[g_fi].key != NULL);
    if (g_fi != g_w) {g_fk = O[g_fi].key; g_fv = O[g_fi].value;}
  }
  bool e1 = vp_bool(), e2 = vp_bool(), e4 = vp_bool();
  if (e4) {m.impl = NULL;}
  rcutils_ret_t r = rcutils_string_map_unset(e1 ? NULL : &m, e2 ? NULL : g_key);
  if (e4) {m.impl = I;}
  if (e1 || e2 || e4) {
    VP_CHECK(r == (!e1 && e4 ? RCUTILS_RET_STRING_MAP_INVALID : RCUTILS_RET_INVALID_ARGUMENT) && UNTOUCHED(), "invalid arguments are refused");
    return;
  }
  if (!g_found) {
    VP_CHECK(r == RCUTILS_RET_STRING_KEY_NOT_FOUND && UNTOUCHED(), "a missing key is reported");
    VP_REACH("missing");
    return;
  }
  VP_CHECK(r == RCUTILS_RET_OK && I->size == g_size - 1 && EMPTY(PAIRS[g_fi]) && I->capacity == g_cap && PAIRS == g_pairs_p, "the key is removed");
  VP_CHECK(VP_IMP(g_fi == g_w, g_wvf == 1 && g_wkf == 1) && VP_IMP(g_fi != g_w, g_fvf == 1 && g_fkf == 1 && g_wvf + g_wkf == 0) && g_other_f + g_pf == 0, "its key and value are released, nothing else");
  VP_CHECK(VP_IMP(g_fi != g_w, SAME(PAIRS[g_w], O[g_w])), "no other slot changes");
  VP_REACH("removed");
}
#endif

#ifdef SM_NEXT
void h_sm_next(void)
{
  any_map();
  bool first = vp_bool(), e1 = vp_bool(), e2 = vp_bool();
  // the key given is the one in slot g_given, or in no slot at all
  g_given = (size_t)vp_nd(VP_MAXOBJ);
  VP_ASSUME(g_given <= g_cap);
  static char stray;
  g_gkey = first ? NULL : g_given < g_cap ? O[g_given].key : &stray;
  VP_ASSUME(first || g_gkey != NULL);
  VP_ASSUME(VP_IMP(!first && g_given < g_cap, SAME(PAIRS[g_given], O[g_given]) && g_size > 0));
  VP_ASSUME(VP_IMP(!first && g_cap > 0, (g_wk == g_gkey) == (g_w == g_given)));
  VP_ASSUME(VP_IMP(g_size == 0, g_wk == NULL));
  size_t start = first ? 0 : g_given < g_cap ? g_given + 1 : g_cap;
  if (e2) {m.impl = NULL;}
  const char * k = rcutils_string_map_get_next_key(e1 ? NULL : &m, g_gkey);
  if (e2) {m.impl = I;}
  VP_CHECK(UNTOUCHED(), "iterating changes nothing");
  if (e1 || e2) {
    VP_CHECK(k == NULL, "nothing to iterate");
    return;
  }
  if (k != NULL) {
    VP_CHECK(g_slot >= start && g_slot < g_cap && k == O[g_slot].key, "the key returned is in a later slot");
    VP_CHECK(VP_IMP(g_w >= start && g_w < g_slot, g_wk == NULL), "no key in between is skipped");
    VP_REACH("next");
  } else {
    VP_CHECK(VP_IMP(g_cap > 0 && g_w >= start, g_wk == NULL), "the iteration ends after the last key");
    VP_REACH("end");
  }
}
#endif

#ifdef SM_RESERVE
void h_sm_reserve(void)
{
  any_map();
  size_t want = (size_t)nondet_vp_u64();
  bool e1 = vp_bool(), e2 = vp_bool();
  g_want = want < g_size ? g_size : want;
#ifdef SM_GROW
  VP_ASSUME(g_want >= g_cap);
#else
  VP_ASSUME(g_want <= g_cap);
#endif
  if (g_cap > 0) {VP_ASSUME(g_cnt[g_w + 1] <= g_size);}
  g_top = want;
  if (e2) {m.impl = NULL;}
  rcutils_ret_t r = rcutils_string_map_reserve(e1 ? NULL : &m, want);
  if (e2) {m.impl = I;}
  if (e1 || e2) {
    VP_CHECK(r == (e1 ? RCUTILS_RET_INVALID_ARGUMENT : RCUTILS_RET_STRING_MAP_INVALID) && UNTOUCHED(), "invalid arguments are refused");
    return;
  }
  if (g_rec) {
    VP_CHECK(r == g_rec_ret && UNTOUCHED(), "asking for less than the size is asking for the size");
    VP_REACH("less than the size");
    return;
  }
  VP_CHECK(I->size == g_size && g_wkf + g_wvf + g_other_f == 0 && m.impl == I, "no key is lost");
  if (r != RCUTILS_RET_OK) {
    VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && (g_realloc_failed || g_want > SIZE_MAX / sizeof(key_value_pair_t)) && I->capacity == g_cap && PAIRS == g_pairs_p, "reserving fails only when memory runs out, and keeps the capacity");
    VP_REACH("failed");
  } else {
    VP_CHECK(I->capacity == g_want, "exactly the requested capacity, but at least the size");
    VP_CHECK(VP_IMP(g_want == 0, PAIRS == NULL && g_pf == (g_cap > 0)), "no capacity, no storage");
    VP_REACH("reserved");
  }
  size_t n = I->capacity;
  if (n > 0) {
    // the witness's pair is there, either where it was or among the first slots
    VP_CHECK(VP_IMP(g_cap > 0 && g_wk != NULL, (g_w < n && n >= g_cap && SAME(PAIRS[g_w], O[g_w])) || (g_wpos < g_size && g_wpos < n && SAME(PAIRS[g_wpos], O[g_w]))), "each pair is kept");
    VP_CHECK(VP_IMP(n > g_cap && g_cap > 0 && g_wk == NULL, EMPTY(PAIRS[g_w])), "free slots stay free");
    VP_CHECK(VP_IMP(n < g_cap, g_u >= n || g_u < g_size || EMPTY(PAIRS[g_u])), "a smaller map has the used slots first");
#ifdef SM_GROW
    if (n > g_cap) {VP_REACH("grown");}
#else
    if (n < g_cap) {VP_REACH("shrunk");}
#endif
  }
}
#endif

#ifdef SM_CLEAR
void h_sm_clear(void)
{
  any_map();
  bool e1 = vp_bool(), e2 = vp_bool();
  static char nothing;
  g_asg = g_cap > 0 ? (void *)PAIRS : (void *)&nothing;
  if (e2) {m.impl = NULL;}
  rcutils_ret_t r = rcutils_string_map_clear(e1 ? NULL : &m);
  if (e2) {m.impl = I;}
  if (e1 || e2) {
    VP_CHECK(r == (e1 ? RCUTILS_RET_INVALID_ARGUMENT : RCUTILS_RET_STRING_MAP_INVALID) && UNTOUCHED(), "invalid arguments are refused");
    return;
  }
  VP_CHECK(r == RCUTILS_RET_OK && I->size == 0 && I->capacity == g_cap && PAIRS == g_pairs_p && g_pf == 0, "clearing leaves an empty map of the same capacity");
  VP_CHECK(g_cap == 0 || EMPTY(PAIRS[g_w]), "every slot is empty");
  VP_CHECK(g_cap == 0 || (g_wkf == (g_wk != NULL) && g_wvf == (g_wk != NULL)), "each key and value is released exactly once");
  VP_REACH("cleared");
}
#endif

#ifdef SM_INIT
void h_sm_init(void)
{
  unsigned bad = (unsigned)vp_nd(3);
  a = vp_allocator(vp_bool());
  g_want = (size_t)nondet_vp_u64();
  if (vp_bool()) {
    // making a map
    g_uninit = 1;
    rcutils_allocator_t x = a;
    static rcutils_string_map_impl_t other;
    m = rcutils_get_zero_initialized_string_map();
    VP_CHECK(m.impl == NULL, "a zero-initialized map has no storage");
    if (bad == 1) {m.impl = &other;}
    if (bad == 2) {x.reallocate = NULL;}
    rcutils_ret_t r = rcutils_string_map_init(bad == 3 ? NULL : &m, g_want, x);
    if (bad) {
      VP_CHECK(r == (bad == 1 ? RCUTILS_RET_STRING_MAP_ALREADY_INIT : RCUTILS_RET_INVALID_ARGUMENT) && g_al.calls == 0 && g_reserve_calls == 0, "invalid arguments are refused");
      VP_CHECK(m.impl == (bad == 1 ? &other : NULL), "leaving the map alone");
    } else if (r == RCUTILS_RET_OK) {
      VP_CHECK(m.impl != NULL && g_al.live == 1 && g_reserve_calls == 1 && g_reserve_ret == RCUTILS_RET_OK, "initialized");
      VP_CHECK(m.impl->size == 0 && m.impl->capacity == g_want, "an empty map of the requested capacity");
      VP_CHECK(m.impl->allocator.state == &g_al_state && m.impl->allocator.deallocate == a.deallocate && m.impl->allocator.reallocate == a.reallocate && m.impl->allocator.allocate == a.allocate && m.impl->allocator.zero_allocate == a.zero_allocate, "with the given allocator");
      VP_REACH("initialized");
    } else {
      VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && (g_al.failed || g_reserve_ret != RCUTILS_RET_OK) && m.impl == NULL && g_al.live == 0, "failed initialization releases everything");
      VP_REACH("failed");
    }
  } else {
    // unmaking one
    g_want = 0;
    g_al.may_fail = false;
    m.impl = NULL;
    if (bad != 1) {
      m.impl = vp_allocate(sizeof(*I), &g_al_state);
      m.impl->allocator = a;
      m.impl->size = (size_t)nondet_vp_u64();
      m.impl->capacity = (size_t)nondet_vp_u64();
    }
    rcutils_ret_t r = rcutils_string_map_fini(bad == 3 ? NULL : &m);
    if (bad == 3) {
      VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && g_al.live == 1 && g_clears == 0, "a null map is refused");
    } else {
      VP_CHECK(r == RCUTILS_RET_OK && m.impl == NULL && g_al.live == 0, "finalizing releases the map");
      VP_CHECK(bad == 1 || (g_clears == 1 && g_reserve_calls == 1), "its keys, values and slots");
      VP_REACH("finalized");
    }
  }
}
#endif
#ifdef SM_COPY
void h_sm_copy(void)
{
  any_map();
  unsigned bad = (unsigned)vp_nd(4);
  static rcutils_string_map_impl_t other;
  if (g_cap == 0) {g_w = 0; g_wk = NULL;}
  g_dimpl = dst.impl = bad == 3 ? NULL : &other;
  if (bad == 4) {m.impl = NULL;}
  rcutils_ret_t r = rcutils_string_map_copy(bad == 1 ? NULL : &m, bad == 2 ? NULL : &dst);
  if (bad) {
    VP_CHECK(r == (bad <= 2 ? RCUTILS_RET_INVALID_ARGUMENT : RCUTILS_RET_STRING_MAP_INVALID) && g_wsets == 0 && !g_started, "invalid arguments are refused");
    return;
  }
  VP_CHECK(UNTOUCHED(), "the source is not changed");
  if (r == RCUTILS_RET_OK) {
    VP_CHECK(!g_failed && g_wsets == (g_cap > 0 && g_wk != NULL), "each pair is set in the destination exactly once");
    VP_REACH("copied");
  } else {
    VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && g_failed, "copying fails only when memory runs out");
    VP_REACH("failed");
  }
}
#endif
#pragma CPROVER check pop
#endif
