// C07, C08: each function of the hash map under contract, for maps, buckets and histories of any size.
//VP unit=hm_find prop=C07 nentry=h_hm_api modes=proof funcs=hash_map_find loops=hash_map_find_0
//VP unit=hm_set prop=C07,C30,C31 nentry=h_hm_api modes=proof funcs=rcutils_hash_map_set,hash_map_insert_entry,hash_map_deallocate_entry replace=hash_map_find/contract_find,hash_map_check_and_grow_map/contract_grow
//VP unit=hm_get prop=C07,C31 nentry=h_hm_api modes=proof funcs=rcutils_hash_map_get,rcutils_hash_map_key_exists,rcutils_hash_map_get_size,rcutils_hash_map_get_capacity replace=hash_map_find/contract_find
//VP unit=hm_unset prop=C07,C31 nentry=h_hm_api modes=proof funcs=rcutils_hash_map_unset,hash_map_deallocate_entry replace=hash_map_find/contract_find
//VP unit=hm_next prop=C08,C31 nentry=h_hm_api modes=proof funcs=rcutils_hash_map_get_next_key_and_data loops=rcutils_hash_map_get_next_key_and_data_0 replace=hash_map_find/contract_find
//VP unit=hm_grow prop=C07,C30 nentry=h_hm_api modes=proof punwind=14 funcs=hash_map_check_and_grow_map loops=hash_map_check_and_grow_map_0,hash_map_check_and_grow_map_1 replace=hash_map_insert_entry/contract_insert,hash_map_deallocate_map/contract_dealloc,hash_map_allocate_new_map/contract_new
//VP unit=hm_dealloc defs=-DHM_DEALLOC prop=C07,C30 nentry=h_hm_api modes=proof punwind=14 funcs=hash_map_deallocate_map loops=hash_map_deallocate_map_0,hash_map_deallocate_map_1 replace=hash_map_deallocate_entry/contract_dentry
//VP unit=hm_new defs=-DHM_NEW prop=C07,C30 nentry=h_hm_api modes=proof funcs=hash_map_allocate_new_map loops=hash_map_allocate_new_map_0
//VP unit=hm_init prop=C07,C30,C31 nentry=h_hm_api modes=proof punwind=8 funcs=rcutils_hash_map_init,next_power_of_two,rcutils_get_zero_initialized_hash_map replace=hash_map_allocate_new_map/contract_new_any
//VP unit=hm_fini prop=C07,C30,C31 nentry=h_hm_api modes=proof funcs=rcutils_hash_map_fini replace=hash_map_deallocate_map/contract_dealloc
//VP unit=hm_string prop=C07 funcs=rcutils_hash_map_string_hash_func,rcutils_hash_map_string_cmp_func loops=rcutils_hash_map_string_hash_func_0 unwind=6 bound="strings of up to 4 characters"
//VP trust: array_list functions by the contracts proved for them in C06
//VP trust: the hash and comparison functions are pure
//VP trust: the supplied allocator behaves as malloc/realloc/free (fresh objects, may fail at any call)
#ifndef VP_PROOF
#define VP_HM_PART
#include "h_hash_map.c"
#else
#include "vp.h"
#include "vp_str.h"
#include "vp_mem.h"
#include "vp_err.h"
#include "vp_alloc.h"
#include "rcutils/logging_macros.h"
#undef RCUTILS_LOG_ERROR_EXPRESSION
#define RCUTILS_LOG_ERROR_EXPRESSION(expression, ...) ((void)(expression))
#include "rcutils/types/array_list.h"
size_t g_re_w;


#define MAXCAP ((size_t)1 << 36)
static struct rcutils_hash_map_impl_s * I;      // the map under test
static rcutils_array_list_t * g_map, * g_new;   // its buckets; the buckets after growing
static size_t g_cap;                            // its capacity, a power of two
static size_t * g_bsz;                          // bucket b holds g_bsz[b] entries
static size_t g_wb, g_wi;                       // witness: entry g_wi of bucket g_wb
static const void * g_alloc;                    // the map's allocator
static size_t g_target;                         // the bucket of the key
static char g_lists;                            // list impl pointers point here
static int g_inits, g_adds, g_removes, g_finis;
static bool g_list_failed;
static void * g_added;
static size_t g_removed, g_got_b, g_got_i;
static void * vp_entry_at(size_t b, size_t i);

rcutils_array_list_t rcutils_get_zero_initialized_array_list(void)
{
  rcutils_array_list_t l = {0};
  return l;
}
static size_t vp_bucket(const rcutils_array_list_t * l)
{
  VP_CHECK(l != NULL && __CPROVER_same_object(l, g_map) && l >= g_map, "a bucket of the map");
  size_t b = (size_t)(l - g_map);
  VP_CHECK(b < g_cap, "a bucket inside the map");
  VP_CHECK(l->impl != NULL, "an initialized bucket");
  return b;
}
rcutils_ret_t rcutils_array_list_init(rcutils_array_list_t * l, size_t cap, size_t size, const rcutils_allocator_t * a)
{
  VP_CHECK(l == &g_map[g_target] && l->impl == NULL, "the key's bucket is initialized");
  VP_CHECK(cap > 0 && size == sizeof(void *) && a == g_alloc, "a list of pointers with the map's allocator");
  g_inits++;
  if (vp_bool()) {g_list_failed = true; return RCUTILS_RET_BAD_ALLOC;}
  l->impl = (struct rcutils_array_list_impl_s *)&g_lists;
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_array_list_add(rcutils_array_list_t * l, const void * d)
{
  VP_CHECK(l == &g_map[g_target] && l->impl != NULL, "the key's bucket, initialized");
  g_adds++;
  if (vp_bool()) {g_list_failed = true; return RCUTILS_RET_BAD_ALLOC;}
  g_added = *(void * const *)d;
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_array_list_get_size(const rcutils_array_list_t * l, size_t * s)
{
  size_t b = vp_bucket(l);
  *s = g_bsz[b];
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_array_list_get(const rcutils_array_list_t * l, size_t i, void * out)
{
  size_t b = vp_bucket(l);
  if (i >= g_bsz[b]) {return RCUTILS_RET_INVALID_ARGUMENT;}
  g_got_b = b;
  g_got_i = i;
  *(void **)out = vp_entry_at(b, i);
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_array_list_remove(rcutils_array_list_t * l, size_t i)
{
  size_t b = vp_bucket(l);
  VP_CHECK(b == g_target && i < g_bsz[b], "an entry of the key's bucket");
  g_removes++;
  g_removed = i;
  return RCUTILS_RET_OK;
}
rcutils_ret_t rcutils_array_list_fini(rcutils_array_list_t * l)
{
  size_t b = vp_bucket(l);
  if (b == g_wb) {g_finis++;}
  l->impl = NULL;
  return RCUTILS_RET_OK;
}

#define WMATCH (g_we->hashed_key == g_h && g_weq)
#define WVALID (g_wb < g_cap && g_wi < g_bsz[g_wb] && (g_wb > g_sb || (g_wb == g_sb && g_wi >= g_si)))
#define VP_LOOP_hash_map_find_0 \
  __CPROVER_assigns(i, bucket_entry, *bucket_index, *entry, g_got_b, g_got_i, g_other) \
  __CPROVER_loop_invariant(i <= bucket_size && VP_IMP(g_wi < i, !WMATCH)) \
  __CPROVER_decreases(bucket_size - i)
#define VP_LOOP_rcutils_hash_map_get_next_key_and_data_0 \
  __CPROVER_assigns(map_index, bucket_index, ret, g_got_b, g_got_i, __CPROVER_object_whole(key), __CPROVER_object_whole(data)) \
  __CPROVER_loop_invariant(map_index >= g_sb && (map_index <= g_cap || map_index == g_sb) && bucket_index == (map_index == g_sb ? g_si : 0)) \
  __CPROVER_loop_invariant(VP_IMP(g_wb < map_index, !WVALID)) \
  __CPROVER_decreases(g_cap - map_index)
#define VP_BODY_rcutils_hash_map_get_next_key_and_data_0 VP_ASSUME(g_map[map_index].impl != NULL || g_bsz[map_index] == 0);
#define VP_LOOP_hash_map_check_and_grow_map_0 \
  __CPROVER_assigns(map_index, ret, g_wadds, g_list_failed, g_got_b, g_got_i, g_other) \
  __CPROVER_loop_invariant(map_index <= g_cap && (ret == RCUTILS_RET_OK || (ret == RCUTILS_RET_BAD_ALLOC && g_list_failed))) \
  __CPROVER_loop_invariant(VP_IMP(ret == RCUTILS_RET_OK, g_wadds == (g_wb < map_index))) \
  __CPROVER_decreases(g_cap - map_index)
#define VP_LOOP_hash_map_check_and_grow_map_1 \
  __CPROVER_assigns(bucket_index, ret, g_wadds, g_list_failed, g_got_b, g_got_i, g_other) \
  __CPROVER_loop_invariant(bucket_index <= bucket_size && (ret == RCUTILS_RET_OK || (ret == RCUTILS_RET_BAD_ALLOC && g_list_failed))) \
  __CPROVER_loop_invariant(VP_IMP(ret == RCUTILS_RET_OK, g_wadds == (g_wb < map_index || (g_wb == map_index && g_wi < bucket_index)))) \
  __CPROVER_decreases(bucket_size - bucket_index)
#define VP_LOOP_hash_map_deallocate_map_0 \
  __CPROVER_assigns(i, ret, g_wfrees, g_finis, g_got_b, g_got_i, g_other, __CPROVER_object_whole(map)) \
  __CPROVER_loop_invariant(i <= g_cap && ret == RCUTILS_RET_OK) \
  __CPROVER_loop_invariant(VP_IMP(g_wb >= i, g_map[g_wb].impl == g_wimpl)) \
  __CPROVER_loop_invariant(g_finis == (g_wb < i && g_wimpl != NULL)) \
  __CPROVER_loop_invariant(g_wfrees == (g_dflag && g_wb < i && g_wi < g_bsz[g_wb])) \
  __CPROVER_decreases(g_cap - i)
#define VP_BODY_hash_map_deallocate_map_0 VP_ASSUME(g_map[i].impl != NULL || g_bsz[i] == 0);
#define VP_LOOP_hash_map_deallocate_map_1 \
  __CPROVER_assigns(b_i, ret, g_wfrees, g_got_b, g_got_i, g_other) \
  __CPROVER_loop_invariant(b_i <= bucket_size && ret == RCUTILS_RET_OK) \
  __CPROVER_loop_invariant(g_wfrees == ((g_wb < i && g_wi < g_bsz[g_wb]) || (g_wb == i && g_wi < b_i))) \
  __CPROVER_decreases(bucket_size - b_i)
#define VP_LOOP_hash_map_allocate_new_map_0 \
  __CPROVER_assigns(i, __CPROVER_object_whole(*map)) \
  __CPROVER_loop_invariant(i <= capacity && VP_IMP(g_wb < i, (*map)[g_wb].impl == NULL)) \
  __CPROVER_decreases(capacity - i)
#define VP_LOOP_rcutils_hash_map_string_hash_func_0 \
  __CPROVER_assigns(ckey_str, hash) \
  __CPROVER_loop_invariant(__CPROVER_same_object(ckey_str, g_str) && __CPROVER_POINTER_OFFSET(ckey_str) <= g_slen) \
  __CPROVER_decreases(g_slen - __CPROVER_POINTER_OFFSET(ckey_str))

struct rcutils_hash_map_entry_s;
static bool g_weq;                              // the witness entry's key is equal to the key
static char g_okey;                             // the key of the other entries
static const void * g_key;
static size_t g_h;                              // the key's hash
static bool g_found;
static size_t g_fi;
static struct rcutils_hash_map_entry_s * g_we;  // the witness (or found) entry
static size_t g_sb, g_si;                       // where the iteration starts
static int g_wadds, g_wfrees;
static bool g_dflag;
static struct rcutils_array_list_impl_s * g_wimpl;
static int g_dealloc_old, g_dealloc_new;
static struct {size_t h; void * k, * v;} g_other;
static char * g_str;
static size_t g_slen;
#include "hash_map.c"

static rcutils_hash_map_t m;
static rcutils_hash_map_entry_t * g_next;
static int g_ent_mode;          // 1: the witness or some other entry, 2: one entry for all
static void * vp_entry_at(size_t b, size_t i)
{
  if (g_ent_mode == 2) {return g_next;}
  if (b == g_wb && i == g_wi) {return g_we;}
  g_other.h = (size_t)nondet_vp_u64();
  g_other.k = &g_okey;
  return &g_other;
}
static size_t hasher(const void * k)
{
  VP_CHECK(k == g_key, "the caller's key is hashed");
  return g_h;
}
static int cmp(const void * a, const void * b)
{
  const void * e = a == g_key ? b : a;
  VP_CHECK(a == g_key || b == g_key, "the caller's key is compared");
  VP_CHECK(e == &g_okey || e == g_we->key, "with a key of the bucket");
  int r = (int)(unsigned)nondet_vp_u64();
  VP_ASSUME(VP_IMP(e == g_we->key, (r == 0) == g_weq));
  return r;
}

bool contract_find(const rcutils_hash_map_t * hash_map, const void * key, size_t * key_hash, size_t * map_index, size_t * bucket_index, rcutils_hash_map_entry_t ** entry)
__CPROVER_requires(hash_map == &m && m.impl == I && key == g_key && key_hash != NULL && map_index != NULL && bucket_index != NULL && entry != NULL)
__CPROVER_assigns(*key_hash, *map_index, *bucket_index, *entry)
__CPROVER_ensures(__CPROVER_return_value == g_found && *key_hash == g_h && *map_index == (g_h & (g_cap - 1)))
__CPROVER_ensures(VP_IMP(g_found, *bucket_index == g_fi && __CPROVER_pointer_equals(*entry, g_we)))
;
rcutils_ret_t contract_grow(rcutils_hash_map_t * hash_map)
__CPROVER_requires(hash_map == &m && m.impl == I)
__CPROVER_assigns(I->map, I->capacity)
__CPROVER_ensures(1)
;
rcutils_ret_t contract_new(rcutils_array_list_t ** map, size_t capacity, const rcutils_allocator_t * allocator)
__CPROVER_requires(map != NULL && capacity == 2 * g_cap && allocator == g_alloc)
__CPROVER_assigns(*map, g_list_failed)
__CPROVER_ensures((__CPROVER_return_value == RCUTILS_RET_OK && *map == g_new && g_list_failed == __CPROVER_old(g_list_failed)) || (__CPROVER_return_value == RCUTILS_RET_BAD_ALLOC && *map == NULL && g_list_failed))
;
rcutils_ret_t contract_new_any(rcutils_array_list_t ** map, size_t capacity, const rcutils_allocator_t * allocator)
__CPROVER_requires(map != NULL && allocator == g_alloc)
__CPROVER_assigns(*map, g_list_failed, g_cap)
__CPROVER_ensures(g_cap == capacity && ((__CPROVER_return_value == RCUTILS_RET_OK && *map == g_new && g_list_failed == __CPROVER_old(g_list_failed)) || (__CPROVER_return_value == RCUTILS_RET_BAD_ALLOC && *map == NULL && g_list_failed)))
;
rcutils_ret_t contract_insert(rcutils_array_list_t * map, size_t bucket_index, const rcutils_hash_map_entry_t * entry, rcutils_allocator_t * allocator)
__CPROVER_requires(map == g_new && allocator == g_alloc && (entry == g_we || entry == (void *)&g_other) && bucket_index == (entry->hashed_key & (2 * g_cap - 1)))
__CPROVER_assigns(g_wadds, g_list_failed)
__CPROVER_ensures((__CPROVER_return_value == RCUTILS_RET_OK && g_list_failed == __CPROVER_old(g_list_failed)) || (__CPROVER_return_value == RCUTILS_RET_BAD_ALLOC && g_list_failed))
__CPROVER_ensures(g_wadds == __CPROVER_old(g_wadds) + (__CPROVER_return_value == RCUTILS_RET_OK && entry == g_we))
;
rcutils_ret_t contract_dealloc(rcutils_array_list_t * map, size_t capacity, rcutils_allocator_t * allocator, bool entries)
__CPROVER_requires(allocator == g_alloc && entries == g_dflag && ((map == g_map && capacity == g_cap) || (map == g_new && capacity == 2 * g_cap)))
__CPROVER_assigns(g_dealloc_old, g_dealloc_new)
__CPROVER_ensures(__CPROVER_return_value == RCUTILS_RET_OK && g_dealloc_old == __CPROVER_old(g_dealloc_old) + (map == g_map) && g_dealloc_new == __CPROVER_old(g_dealloc_new) + (map == g_new))
;
void contract_dentry(rcutils_allocator_t * allocator, rcutils_hash_map_entry_t * entry)
__CPROVER_requires(allocator == g_alloc && (entry == g_we || entry == (void *)&g_other))
__CPROVER_assigns(g_wfrees)
__CPROVER_ensures(g_wfrees == __CPROVER_old(g_wfrees) + (entry == g_we))
;

// an arbitrary valid map
static size_t ks, ds;
static rcutils_allocator_t a;
static void any_map(bool may_fail)
{
  a = vp_allocator(may_fail);
  g_cap = (size_t)vp_nd(MAXCAP);
  VP_ASSUME(g_cap > 0 && (g_cap & (g_cap - 1)) == 0);
  ks = (size_t)vp_nd(VP_MAXOBJ); ds = (size_t)vp_nd(VP_MAXOBJ);
  VP_ASSUME(ks > 0 && ds > 0);
  I = (malloc)(sizeof *I);
  g_map = (malloc)(g_cap * sizeof(*g_map));
  g_bsz = (malloc)(g_cap * sizeof(*g_bsz));
  VP_ASSUME(I != NULL && g_map != NULL && g_bsz != NULL);
  static rcutils_array_list_t new_place;
  g_new = &new_place;
  I->map = g_map;
  I->capacity = g_cap;
  I->size = (size_t)vp_nd(VP_MAXOBJ);
  I->key_size = ks;
  I->data_size = ds;
  I->key_hashing_func = hasher;
  I->key_cmp_func = cmp;
  I->allocator = a;
  g_alloc = &I->allocator;
  m.impl = I;
  g_h = (size_t)nondet_vp_u64();
  g_target = g_h & (g_cap - 1);
  g_wb = (size_t)vp_nd(VP_MAXOBJ); g_wi = (size_t)vp_nd(VP_MAXOBJ);
  VP_ASSUME(g_wb < g_cap);
  VP_ASSUME(g_bsz[g_wb] <= VP_MAXOBJ && g_bsz[g_target] <= VP_MAXOBJ);
  VP_ASSUME(g_map[g_wb].impl != NULL || g_bsz[g_wb] == 0);
  VP_ASSUME(g_map[g_target].impl != NULL || g_bsz[g_target] == 0);
  VP_ASSUME(VP_IMP(I->size == 0, g_bsz[g_wb] == 0 && g_bsz[g_target] == 0));
  g_key = vp_buf(ks);
  g_w = (size_t)vp_nd(VP_MAXOBJ);
}
static rcutils_hash_map_entry_t * an_entry(void)
{
  rcutils_hash_map_entry_t * e = vp_allocate(sizeof *e, &g_al_state);
  e->hashed_key = g_h;
  e->key = vp_allocate(ks, &g_al_state);
  e->value = vp_allocate(ds, &g_al_state);
  return e;
}
// the key is in the map (as entry g_fi of its bucket), or not
static void any_find(void)
{
  g_found = vp_bool();
  g_fi = (size_t)vp_nd(VP_MAXOBJ);
  if (g_found) {
    VP_ASSUME(g_fi < g_bsz[g_target] && I->size > 0);
    g_we = an_entry();
  }
}

void h_hm_find(void)
{
  any_map(false);
  size_t bs = g_bsz[g_target];
  g_ent_mode = 1;
  g_wb = g_target;
  g_we = an_entry();
  g_we->hashed_key = (size_t)nondet_vp_u64();
  g_weq = vp_bool();
  size_t kh = 1, mi = 2, bi = 3;
  rcutils_hash_map_entry_t * e = NULL;
  bool r = hash_map_find(&m, g_key, &kh, &mi, &bi, &e);
  VP_CHECK(kh == g_h && mi == g_target, "hash and bucket are always reported");
  if (r) {
    VP_CHECK(bi < bs && VP_IMP(bi == g_wi, e == g_we && WMATCH), "the entry found has an equal key");
    VP_CHECK(VP_IMP(g_wi < bi, !WMATCH), "it is the first one");
    VP_REACH("found");
  } else {
    VP_CHECK(VP_IMP(g_wi < bs, !WMATCH), "no entry has an equal key");
    VP_REACH("not found");
  }
}

void h_hm_set(void)
{
  any_map(false);
  any_find();
  bool nullm = vp_bool(), nokey = vp_bool(), noval = vp_bool(), uninit = vp_bool();
  unsigned char * val = (unsigned char *)vp_buf(ds);
  unsigned char vb = g_w < ds ? val[g_w] : 0, kb = g_w < ks ? ((const unsigned char *)g_key)[g_w] : 0;
  unsigned char ok = g_found && g_w < ks ? ((unsigned char *)g_we->key)[g_w] : 0;
  size_t s = I->size, live = g_al.live;
  g_al.may_fail = vp_bool();
  g_al.calls = 0;
  if (uninit) {m.impl = NULL;}
  rcutils_ret_t r = rcutils_hash_map_set(nullm ? NULL : &m, nokey ? NULL : g_key, noval ? NULL : val);
  if (nullm || nokey || noval || uninit) {
    VP_CHECK(r == (!nullm && uninit ? RCUTILS_RET_NOT_INITIALIZED : RCUTILS_RET_INVALID_ARGUMENT) && g_al.calls == 0 && I->size == s, "invalid arguments are refused");
    return;
  }
  VP_CHECK(I->key_size == ks && I->data_size == ds && I->allocator.state == a.state, "the map keeps its parameters");
  if (g_found) {
    VP_CHECK(r == RCUTILS_RET_OK && I->size == s && g_adds == 0 && g_al.live == live, "an existing key keeps its entry");
    VP_CHECK(VP_IMP(g_w < ds, ((unsigned char *)g_we->value)[g_w] == vb), "its value is overwritten");
    VP_CHECK(VP_IMP(g_w < ks, ((unsigned char *)g_we->key)[g_w] == ok), "its key stays");
    VP_REACH("overwritten");
  } else if (r == RCUTILS_RET_OK) {
    VP_CHECK(I->size == s + 1 && g_adds == 1 && g_al.live == live + 3 && !g_al.failed && !g_list_failed, "one entry is added");
    rcutils_hash_map_entry_t * e = g_added;
    VP_CHECK(e->hashed_key == g_h, "with the key's hash");
    VP_CHECK(VP_IMP(g_w < ds, ((unsigned char *)e->value)[g_w] == vb) && e->value != val, "a copy of the value");
    VP_CHECK(VP_IMP(g_w < ks, ((unsigned char *)e->key)[g_w] == kb) && e->key != g_key, "a copy of the key");
    VP_REACH("added");
  } else {
    VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && (g_al.failed || g_list_failed), "setting fails only when memory runs out");
    VP_CHECK(I->size == s && g_al.live == live && g_added == NULL, "and then nothing is added or kept");
    VP_REACH("failed");
  }
}

void h_hm_get(void)
{
  any_map(false);
  any_find();
  bool nullm = vp_bool(), nokey = vp_bool(), nodata = vp_bool(), uninit = vp_bool();
  unsigned char * out = (unsigned char *)vp_buf(ds);
  unsigned char ob = g_w < ds ? out[g_w] : 0;
  unsigned char vb = g_found && g_w < ds ? ((unsigned char *)g_we->value)[g_w] : 0;
  size_t s = I->size, n = 77;
  g_al.calls = 0;
  if (uninit) {m.impl = NULL;}
  rcutils_hash_map_t * p = nullm ? NULL : &m;
  rcutils_ret_t bad = !nullm && uninit ? RCUTILS_RET_NOT_INITIALIZED : RCUTILS_RET_INVALID_ARGUMENT;
  switch (vp_nd(3)) {
    case 0: {
        rcutils_ret_t r = rcutils_hash_map_get(p, nokey ? NULL : g_key, nodata ? NULL : out);
        if (nullm || nokey || nodata || uninit) {
          VP_CHECK(r == bad, "invalid arguments are refused");
        } else {
          VP_CHECK(r == (g_found ? RCUTILS_RET_OK : RCUTILS_RET_NOT_FOUND), "found exactly if the key is in the map");
          VP_CHECK(VP_IMP(g_w < ds, out[g_w] == (g_found ? vb : ob)), "its value is copied out");
          VP_REACH("get");
        }
        VP_CHECK(VP_IMP(g_w < ds && r != RCUTILS_RET_OK, out[g_w] == ob), "nothing is written otherwise");
        break;
      }
    case 1: {
        bool r = rcutils_hash_map_key_exists(p, nokey ? NULL : g_key);
        VP_CHECK(r == (!nullm && !uninit && !nokey && g_found), "true exactly if the key is in the map");
        VP_REACH("exists");
        break;
      }
    case 2: {
        rcutils_ret_t r = rcutils_hash_map_get_size(p, nodata ? NULL : &n);
        VP_CHECK(r == (nullm || nodata || uninit ? bad : RCUTILS_RET_OK) && n == (r == RCUTILS_RET_OK ? s : 77), "the number of entries");
        break;
      }
    default: {
        rcutils_ret_t r = rcutils_hash_map_get_capacity(p, nodata ? NULL : &n);
        VP_CHECK(r == (nullm || nodata || uninit ? bad : RCUTILS_RET_OK) && n == (r == RCUTILS_RET_OK ? g_cap : 77), "the number of buckets");
        break;
      }
  }
  VP_CHECK(I->size == s && I->capacity == g_cap && I->map == g_map && g_al.calls == 0 && g_adds == 0 && g_removes == 0, "looking up changes nothing");
  VP_CHECK(VP_IMP(g_found && g_w < ds, ((unsigned char *)g_we->value)[g_w] == vb), "nor the value");
}

void h_hm_unset(void)
{
  any_map(false);
  any_find();
  bool nullm = vp_bool(), nokey = vp_bool(), uninit = vp_bool();
  size_t s = I->size, live = g_al.live;
  if (uninit) {m.impl = NULL;}
  rcutils_ret_t r = rcutils_hash_map_unset(nullm ? NULL : &m, nokey ? NULL : g_key);
  if (nullm || nokey || uninit) {
    VP_CHECK(r == (!nullm && uninit ? RCUTILS_RET_NOT_INITIALIZED : RCUTILS_RET_INVALID_ARGUMENT) && I->size == s && g_removes == 0 && g_al.live == live, "invalid arguments are refused");
    return;
  }
  VP_CHECK(r == RCUTILS_RET_OK, "unsetting succeeds");
  if (g_found) {
    VP_CHECK(g_removes == 1 && g_removed == g_fi && I->size == s - 1, "exactly the key's entry is removed");
    VP_CHECK(g_al.live == live - 3, "and its memory released");
    VP_REACH("removed");
  } else {
    VP_CHECK(g_removes == 0 && I->size == s && g_al.live == live, "an absent key changes nothing");
    VP_REACH("absent");
  }
}

void h_hm_next(void)
{
  any_map(false);
  any_find();
  bool nullm = vp_bool(), nokey = vp_bool(), nodata = vp_bool(), uninit = vp_bool(), first = vp_bool();
  g_ent_mode = 2;
  g_next = an_entry();
  unsigned char * k = (unsigned char *)vp_buf(ks), * d = (unsigned char *)vp_buf(ds);
  unsigned char kb = g_w < ks ? ((unsigned char *)g_next->key)[g_w] : 0, db = g_w < ds ? ((unsigned char *)g_next->value)[g_w] : 0;
  if (uninit) {m.impl = NULL;}
  g_sb = first ? 0 : g_target;
  g_si = first ? 0 : g_fi + 1;
  rcutils_ret_t r = rcutils_hash_map_get_next_key_and_data(nullm ? NULL : &m, first ? NULL : g_key, nokey ? NULL : k, nodata ? NULL : d);
  if (nullm || nokey || nodata || uninit) {
    VP_CHECK(r == (!nullm && uninit ? RCUTILS_RET_NOT_INITIALIZED : RCUTILS_RET_INVALID_ARGUMENT), "invalid arguments are refused");
    return;
  }
  if (!first && !g_found) {
    VP_CHECK(r == RCUTILS_RET_NOT_FOUND, "a previous key that is not in the map is reported");
    VP_REACH("not found");
  } else if (r == RCUTILS_RET_OK) {
    VP_CHECK(g_got_b < g_cap && g_got_i < g_bsz[g_got_b] && (g_got_b > g_sb || (g_got_b == g_sb && g_got_i >= g_si)), "an entry after the previous one");
    VP_CHECK(VP_IMP(WVALID, g_wb > g_got_b || (g_wb == g_got_b && g_wi >= g_got_i)), "no entry is skipped");
    VP_CHECK(VP_IMP(g_w < ks, k[g_w] == kb) && VP_IMP(g_w < ds, d[g_w] == db), "its key and data are copied out");
    VP_REACH("next");
  } else {
    VP_CHECK(r == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES, "otherwise the iteration has ended");
    VP_CHECK(!WVALID, "and no entry is left");
    VP_REACH("end");
  }
  VP_CHECK(g_al.calls == 3 + (g_found ? 3 : 0) && I->capacity == g_cap && I->map == g_map, "the map is not changed");
}

void h_hm_grow(void)
{
  any_map(false);
  g_ent_mode = 1;
  g_we = an_entry();
  g_we->hashed_key = (size_t)nondet_vp_u64();
  VP_ASSUME(g_wi < g_bsz[g_wb]);
  size_t s = I->size;
  rcutils_ret_t r = hash_map_check_and_grow_map(&m);
  VP_CHECK(I->size == s, "the number of entries stays");
  if (I->map == g_map) {
    VP_CHECK(I->capacity == g_cap && g_dealloc_old == 0, "not grown: the buckets stay");
    VP_CHECK(VP_IMP(r != RCUTILS_RET_OK, r == RCUTILS_RET_BAD_ALLOC && g_list_failed), "growing fails only when memory runs out");
    VP_CHECK(g_dealloc_new <= 1 && VP_IMP(g_wadds > 0, g_dealloc_new == 1), "half-filled new buckets are released");
    VP_REACH("kept");
    if (r != RCUTILS_RET_OK) {VP_REACH("failed");}
  } else {
    VP_CHECK(r == RCUTILS_RET_OK && I->map == g_new && I->capacity == 2 * g_cap, "grown: twice the buckets");
    VP_CHECK(g_wadds == 1, "every entry is put exactly once into the new buckets, at its place");
    VP_CHECK(g_dealloc_old == 1 && g_dealloc_new == 0, "the old buckets are released");
    VP_REACH("grown");
  }
}

#ifdef HM_DEALLOC
static int g_mapfreed;
static void hm_deallocate(void * p, void * state)
{
  VP_CHECK(state == &g_al_state && p == g_map, "the buckets are released");
  g_mapfreed++;
}
void h_hm_dealloc(void)
{
  any_map(false);
  g_ent_mode = 1;
  g_we = an_entry();
  g_dflag = vp_bool();
  g_wimpl = g_map[g_wb].impl;
  I->allocator.deallocate = hm_deallocate;
  rcutils_ret_t r = hash_map_deallocate_map(g_map, g_cap, &I->allocator, g_dflag);
  VP_CHECK(r == RCUTILS_RET_OK && g_mapfreed == 1, "the buckets are released once");
  VP_CHECK(g_finis == (g_wimpl != NULL), "every list is finalized exactly once");
  VP_CHECK(g_wfrees == (g_dflag && g_wi < g_bsz[g_wb]), "every entry is released exactly once, if asked for");
  VP_REACH("end");
}

#endif
#ifdef HM_NEW
// an array of lists of the requested size
static void * hm_allocate_lists(size_t n, void * state)
{
  VP_CHECK(state == &g_al_state, "allocator called with its own state pointer");
  if (vp_al_refuse(n)) {return NULL;}
  rcutils_array_list_t * p = (malloc)(n / sizeof(rcutils_array_list_t) * sizeof(rcutils_array_list_t));
  VP_ASSUME(p != NULL);
  g_al.live++;
  return p;
}
void h_hm_new(void)
{
  a = vp_allocator(vp_bool());
  a.allocate = hm_allocate_lists;
  size_t c = (size_t)nondet_vp_u64();
  g_wb = (size_t)nondet_vp_u64();
  rcutils_array_list_t * p = (rcutils_array_list_t *)&g_lists;
  rcutils_ret_t r = hash_map_allocate_new_map(&p, c, &a);
  if (r == RCUTILS_RET_OK) {
    VP_CHECK(!g_al.failed && g_al.live == 1, "one block");
    VP_CHECK(VP_IMP(g_wb < c, p[g_wb].impl == NULL), "every bucket is empty");
    VP_REACH("new");
  } else {
    VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && (g_al.failed || c > SIZE_MAX / sizeof(*p) / 32) && g_al.live == 0 && p == NULL, "only when memory runs out");
    VP_REACH("failed");
  }
}

#endif
void h_hm_init(void)
{
  a = vp_allocator(vp_bool());
  bool nullm = vp_bool(), nohash = vp_bool(), nocmp = vp_bool(), noal = vp_bool(), bad = vp_bool(), twice = vp_bool();
  if (bad) {
    switch (vp_nd(3)) {
      case 0: a.allocate = NULL; break;
      case 1: a.deallocate = NULL; break;
      case 2: a.reallocate = NULL; break;
      default: a.zero_allocate = NULL; break;
    }
  }
  static rcutils_array_list_t new_place;
  g_new = &new_place;
  g_alloc = &a;
  size_t c = (size_t)nondet_vp_u64();
  ks = (size_t)nondet_vp_u64(); ds = (size_t)nondet_vp_u64();
  m = rcutils_get_zero_initialized_hash_map();
  VP_CHECK(m.impl == NULL, "zero initialized");
  if (twice) {m.impl = (struct rcutils_hash_map_impl_s *)&a;}
  void * was = m.impl;
  rcutils_ret_t r = rcutils_hash_map_init(nullm ? NULL : &m, c, ks, ds, nohash ? NULL : hasher, nocmp ? NULL : cmp, noal ? NULL : &a);
  if (nullm || nohash || nocmp || noal || bad || c == 0 || ks == 0 || ds == 0) {
    VP_CHECK(r == RCUTILS_RET_INVALID_ARGUMENT && m.impl == was && g_al.calls == 0, "invalid arguments are refused");
    return;
  }
  if (twice) {
    VP_CHECK(r == RCUTILS_RET_STRING_MAP_ALREADY_INIT && m.impl == was && g_al.calls == 0, "an initialized map is refused");
    VP_REACH("twice");
    return;
  }
  if (r == RCUTILS_RET_OK) {
    VP_CHECK(g_al.live == 1 && !g_al.failed && !g_list_failed && m.impl != NULL, "one map structure");
    VP_CHECK(m.impl->map == g_new && m.impl->capacity == g_cap && m.impl->size == 0, "an empty map with its buckets");
    VP_CHECK(g_cap >= c && (g_cap & (g_cap - 1)) == 0 && (g_cap >> 1) < c, "the capacity is the smallest power of two not below the requested one");
    VP_CHECK(m.impl->key_size == ks && m.impl->data_size == ds && m.impl->key_hashing_func == hasher && m.impl->key_cmp_func == cmp, "the caller's parameters");
    VP_CHECK(m.impl->allocator.allocate == a.allocate && m.impl->allocator.deallocate == a.deallocate && m.impl->allocator.reallocate == a.reallocate &&
      m.impl->allocator.zero_allocate == a.zero_allocate && m.impl->allocator.state == a.state, "the caller's allocator");
    VP_REACH("init");
  } else {
    VP_CHECK(r == RCUTILS_RET_BAD_ALLOC && m.impl == NULL && g_al.live == 0, "a failure leaves nothing behind");
    VP_CHECK(g_al.failed || g_list_failed || c > ((size_t)1 << 63), "only when memory runs out");
    VP_REACH("failed");
  }
}

void h_hm_fini(void)
{
  any_map(false);
  (free)(I);
  I = vp_allocate(sizeof *I, &g_al_state);
  I->map = g_map; I->capacity = g_cap; I->allocator = a;
  g_alloc = &I->allocator;
  m.impl = I;
  g_dflag = true;
  bool nullm = vp_bool(), uninit = vp_bool();
  if (uninit) {m.impl = NULL;}
  rcutils_ret_t r = rcutils_hash_map_fini(nullm ? NULL : &m);
  if (nullm || uninit) {
    VP_CHECK(r == (nullm ? RCUTILS_RET_INVALID_ARGUMENT : RCUTILS_RET_NOT_INITIALIZED) && g_al.live == 1, "invalid arguments are refused");
    return;
  }
  VP_CHECK(r == RCUTILS_RET_OK && m.impl == NULL && g_al.live == 0 && g_dealloc_old == 1, "entries, buckets and the map are released");
  VP_REACH("end");
}
#endif
#ifndef VP_PROOF
static char * g_str;
static size_t g_slen;
#endif
void h_hm_string(void)
{
  size_t n = (size_t)vp_nd(VP_LIM(VP_MAXOBJ - 2, 4, 10)), l = (size_t)vp_nd(VP_LIM(1, 4, 10));
  g_slen = n;
  g_str = vp_input_str(n, 0);
  const char * k = g_str;
  size_t h = rcutils_hash_map_string_hash_func(&k);
  VP_CHECK(k == g_str, "the key is not modified");
  VP_REACH("hash");
#ifndef VP_PROOF
  char * copy = (malloc)(n + 1);
  VP_ASSUME(copy != NULL);
  for (size_t i = 0; i <= n; ++i) {copy[i] = g_str[i];}
  const char * k2 = copy;
  VP_CHECK(rcutils_hash_map_string_hash_func(&k2) == h, "equal strings have equal hashes");
  VP_CHECK(rcutils_hash_map_string_cmp_func(&k, &k2) == 0, "equal strings compare equal");
  char * o = vp_input_str(l, 1);
  const char * k3 = o;
  size_t i = 0;
  while (i < n && i < l && g_str[i] == o[i]) {++i;}
  int c = rcutils_hash_map_string_cmp_func(&k, &k3), c2 = (unsigned char)g_str[i] - (unsigned char)o[i];
  VP_CHECK((c < 0) == (c2 < 0) && (c > 0) == (c2 > 0), "string keys are compared by content");
#else
  (void)h;
#endif
}
