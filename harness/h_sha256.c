// C05: SHA-256.  The specification (below) is FIPS 180-4, written independently of the code; its
// constants were computed from the primes by which the standard defines them.
//VP unit=sha_transform solver=cadical prop=C05 funcs=sha256_transform loops=sha256_transform_0,sha256_transform_1,sha256_transform_2 nentry=h_sha_api bound="none in native search: messages of up to 400 bytes in up to 12 updates" modes=proof punwind=10
//VP unit=sha_update prop=C05 funcs=rcutils_sha256_update loops=rcutils_sha256_update_0 replace=sha256_transform/contract_transform nentry=h_sha_api modes=proof punwind=10
//VP unit=sha_final prop=C05 funcs=rcutils_sha256_final,rcutils_sha256_init replace=sha256_transform/contract_ftransform nentry=h_sha_api modes=proof punwind=10
//VP trust: memcpy and memset by their C contracts
#include "vp.h"
#include "vp_str.h"
#include "vp_mem.h"
#ifdef VP_PROOF
#define RR(x, n) (((x) >> (n)) | ((x) << (32 - (n))))
#define S0(x) (RR(x, 7) ^ RR(x, 18) ^ ((x) >> 3))
#define S1(x) (RR(x, 17) ^ RR(x, 19) ^ ((x) >> 10))
#define E0(x) (RR(x, 2) ^ RR(x, 13) ^ RR(x, 22))
#define E1(x) (RR(x, 6) ^ RR(x, 11) ^ RR(x, 25))
#define CH(x, y, z) (((x) & (y)) | (~(x) & (z)))
#define MAJ(x, y, z) (((x) & (y)) | ((x) & (z)) | ((y) & (z)))
static struct vp_sha_s
{
  uint32_t w[64];              // the message schedule
} G;
static uint32_t ga, gb, gc, gd, ge, gf, gg, gh;   // the working variables of the standard
#define W (G.w)
static const uint32_t KK[64] = {
  0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
  0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
  0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
  0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
  0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
  0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
  0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
  0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
};
static const uint32_t HH[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
static size_t k0, wd;          // blocks completed so far; witness: byte wd of a block
static size_t g_base;          // 64 * (blocks completed in this update) - dl0: where the current block starts in the given data
static size_t dl0;
static unsigned char old_wd;
static const uint8_t * g_data;
static size_t g_len;
static uint64_t bl0;
static uint32_t g_state[8];
#define SAME_STATE(c) ((c)->state[0] == g_state[0] && (c)->state[1] == g_state[1] && (c)->state[2] == g_state[2] && (c)->state[3] == g_state[3] && \
  (c)->state[4] == g_state[4] && (c)->state[5] == g_state[5] && (c)->state[6] == g_state[6] && (c)->state[7] == g_state[7])
#define EXPECTED (g_base + wd >= g_len ? old_wd : g_data[g_base + wd])

#define VP_LOOP_sha256_transform_0 \
  __CPROVER_assigns(i, j, __CPROVER_object_whole(m)) \
  __CPROVER_loop_invariant(i <= 16 && j == 4 * i && ALLW) \
  __CPROVER_decreases(16 - i)
#define VP_BODY_sha256_transform_0 VP_ASSUME(W[i] == (((uint32_t)data[4 * i] << 24) | ((uint32_t)data[4 * i + 1] << 16) | ((uint32_t)data[4 * i + 2] << 8) | data[4 * i + 3]));
#define VP_LOOP_sha256_transform_1 \
  __CPROVER_assigns(i, __CPROVER_object_whole(m)) \
  __CPROVER_loop_invariant(i >= 16 && i <= 64 && ALLW) \
  __CPROVER_decreases(64 - i)
#define VP_BODY_sha256_transform_1 \
  VP_CHECK(m[i - 2] == W[i - 2] && m[i - 7] == W[i - 7] && m[i - 15] == W[i - 15] && m[i - 16] == W[i - 16], "the schedule so far"); \
  VP_ASSUME(W[i] == S1(m[i - 2]) + m[i - 7] + S0(m[i - 15]) + m[i - 16]);
#define VP_LOOP_sha256_transform_2 \
  __CPROVER_assigns(i, a, b, c, d, e, f, g, h, t1, t2, ga, gb, gc, gd, ge, gf, gg, gh) \
  __CPROVER_loop_invariant(i <= 64 && a == ga && b == gb && c == gc && d == gd && e == ge && f == gf && g == gg && h == gh) \
  __CPROVER_decreases(64 - i)
#define VP_BODY_sha256_transform_2 \
  VP_CHECK(m[i] == W[i] && k[i] == KK[i], "the round uses its constant and its word of the schedule"); \
  vp_round(k[i], m[i]);
#define VP_LOOP_rcutils_sha256_update_0 \
  __CPROVER_assigns(i, data_remaining, block_remaining, copy_len, g_base, __CPROVER_object_whole(ctx), g_state) \
  __CPROVER_loop_invariant(i <= len && ctx->datalen < 64 && i == g_base + ctx->datalen && ctx->bitlen == bl0 + 8 * (g_base + dl0) && ((g_base + dl0) & 63) == 0) \
  __CPROVER_loop_invariant(VP_IMP(g_base > len, g_base == 0 - dl0 && ctx->datalen >= dl0)) \
  __CPROVER_loop_invariant(VP_IMP(wd < ctx->datalen, ctx->data[wd] == EXPECTED)) \
  __CPROVER_loop_invariant(SAME_STATE(ctx)) \
  __CPROVER_decreases(len - i)
#define ALLW ((i <= 0 || m[0] == W[0]) && (i <= 1 || m[1] == W[1]) && (i <= 2 || m[2] == W[2]) && (i <= 3 || m[3] == W[3]) && (i <= 4 || m[4] == W[4]) && (i <= 5 || m[5] == W[5]) && (i <= 6 || m[6] == W[6]) && (i <= 7 || m[7] == W[7]) && (i <= 8 || m[8] == W[8]) && (i <= 9 || m[9] == W[9]) && (i <= 10 || m[10] == W[10]) && (i <= 11 || m[11] == W[11]) && (i <= 12 || m[12] == W[12]) && (i <= 13 || m[13] == W[13]) && (i <= 14 || m[14] == W[14]) && (i <= 15 || m[15] == W[15]) && (i <= 16 || m[16] == W[16]) && (i <= 17 || m[17] == W[17]) && (i <= 18 || m[18] == W[18]) && (i <= 19 || m[19] == W[19]) && (i <= 20 || m[20] == W[20]) && (i <= 21 || m[21] == W[21]) && (i <= 22 || m[22] == W[22]) && (i <= 23 || m[23] == W[23]) && (i <= 24 || m[24] == W[24]) && (i <= 25 || m[25] == W[25]) && (i <= 26 || m[26] == W[26]) && (i <= 27 || m[27] == W[27]) && (i <= 28 || m[28] == W[28]) && (i <= 29 || m[29] == W[29]) && (i <= 30 || m[30] == W[30]) && (i <= 31 || m[31] == W[31]) && (i <= 32 || m[32] == W[32]) && (i <= 33 || m[33] == W[33]) && (i <= 34 || m[34] == W[34]) && (i <= 35 || m[35] == W[35]) && (i <= 36 || m[36] == W[36]) && (i <= 37 || m[37] == W[37]) && (i <= 38 || m[38] == W[38]) && (i <= 39 || m[39] == W[39]) && (i <= 40 || m[40] == W[40]) && (i <= 41 || m[41] == W[41]) && (i <= 42 || m[42] == W[42]) && (i <= 43 || m[43] == W[43]) && (i <= 44 || m[44] == W[44]) && (i <= 45 || m[45] == W[45]) && (i <= 46 || m[46] == W[46]) && (i <= 47 || m[47] == W[47]) && (i <= 48 || m[48] == W[48]) && (i <= 49 || m[49] == W[49]) && (i <= 50 || m[50] == W[50]) && (i <= 51 || m[51] == W[51]) && (i <= 52 || m[52] == W[52]) && (i <= 53 || m[53] == W[53]) && (i <= 54 || m[54] == W[54]) && (i <= 55 || m[55] == W[55]) && (i <= 56 || m[56] == W[56]) && (i <= 57 || m[57] == W[57]) && (i <= 58 || m[58] == W[58]) && (i <= 59 || m[59] == W[59]) && (i <= 60 || m[60] == W[60]) && (i <= 61 || m[61] == W[61]) && (i <= 62 || m[62] == W[62]) && (i <= 63 || m[63] == W[63]))
// one round of the standard
static inline void vp_round(uint32_t kt, uint32_t wt)
{
  uint32_t T1 = gh + E1(ge) + CH(ge, gf, gg) + kt + wt;
  uint32_t T2 = E0(ga) + MAJ(ga, gb, gc);
  gh = gg; gg = gf; gf = ge;
  ge = gd + T1;
  gd = gc; gc = gb; gb = ga;
  ga = T1 + T2;
}
#endif
#ifdef VP_PROOF
// memcpy and memset into the block, by contract: byte wd gets its specified value, the others any value
static void vp_block(void * dst, size_t n, bool copy, const void * src, int c);
static void * vp_sha_memcpy(void * dst, const void * src, size_t n)
{
  VP_CHECK(n == 0 || __CPROVER_r_ok(src, n), "memcpy reads inside the source object");
  vp_block(dst, n, true, src, 0);
  return dst;
}
static void * vp_sha_memset(void * dst, int c, size_t n)
{
  vp_block(dst, n, false, NULL, c);
  return dst;
}
#undef memcpy
#undef memset
#define memcpy vp_sha_memcpy
#define memset vp_sha_memset
#endif
#include "sha256.c"

#ifdef VP_PROOF
static rcutils_sha256_ctx_t C;
static void vp_block(void * dst, size_t n, bool copy, const void * src, int c)
{
  VP_CHECK(__CPROVER_same_object(dst, &C) && (size_t)__CPROVER_POINTER_OFFSET(dst) >= offsetof(rcutils_sha256_ctx_t, data), "the block is written");
  size_t off = (size_t)__CPROVER_POINTER_OFFSET(dst) - offsetof(rcutils_sha256_ctx_t, data);
  VP_CHECK(off <= 64 && n <= 64 - off, "inside its 64 bytes");
  uint8_t v = C.data[wd];
  if (wd >= off && wd - off < n) {v = copy ? ((const uint8_t *)src)[wd - off] : (uint8_t)c;}
  __CPROVER_havoc_slice(C.data, 64);
  C.data[wd] = v;
}
static void any_ctx(void)
{
  rcutils_sha256_ctx_t c;
  C = c;
  struct vp_sha_s g;
  G = g;
}
void h_sha_transform(void)
{
  any_ctx();
  uint32_t st[8];
  for (int i = 0; i < 8; ++i) {st[i] = C.state[i];}
  ga = st[0]; gb = st[1]; gc = st[2]; gd = st[3]; ge = st[4]; gf = st[5]; gg = st[6]; gh = st[7];
  size_t x = (size_t)vp_nd(63);
  rcutils_sha256_ctx_t old = C;
  sha256_transform(&C);
  VP_CHECK(C.state[0] == st[0] + ga && C.state[1] == st[1] + gb && C.state[2] == st[2] + gc && C.state[3] == st[3] + gd &&
    C.state[4] == st[4] + ge && C.state[5] == st[5] + gf && C.state[6] == st[6] + gg && C.state[7] == st[7] + gh, "the state is compressed with the block");
  VP_CHECK(C.data[x] == old.data[x] && C.datalen == old.datalen && C.bitlen == old.bitlen, "nothing else changes");
  VP_REACH("end");
}

// the compression function on whole blocks of the message, in order
void contract_transform(rcutils_sha256_ctx_t * ctx)
__CPROVER_requires(ctx == &C && VP_IMP(wd < 64, C.data[wd] == EXPECTED) && SAME_STATE(&C))
__CPROVER_assigns(C.state, g_state, g_base)
__CPROVER_ensures(g_base == __CPROVER_old(g_base) + 64 && SAME_STATE(&C))
;
void h_sha_update(void)
{
  any_ctx();
  VP_ASSUME(C.datalen < 64);
  wd = (size_t)vp_nd(63);
  dl0 = C.datalen; bl0 = C.bitlen; old_wd = C.data[wd];
  for (int i = 0; i < 8; ++i) {g_state[i] = C.state[i];}
  g_len = (size_t)vp_nd(VP_MAXOBJ);
  g_base = 0 - dl0;
  g_data = g_len == 0 && vp_bool() ? NULL : (const uint8_t *)vp_buf(g_len);
  rcutils_sha256_update(&C, g_data, g_len);
  VP_CHECK(g_base + C.datalen == g_len && C.datalen < 64, "every complete block has been compressed, in order");
  VP_CHECK(C.bitlen == bl0 + 8 * (g_base + dl0), "and counted");
  VP_CHECK(VP_IMP(wd < C.datalen, C.data[wd] == EXPECTED), "the rest of the message is kept");
  VP_CHECK(SAME_STATE(&C), "the state is that after the last block");
  VP_REACH("end");
}

// the padded final block(s)
static uint64_t g_bits;
static unsigned char final_byte(size_t k, size_t w)
{
  bool two = dl0 >= 56;
  unsigned char len_byte = w < 56 ? 0 : (unsigned char)(g_bits >> (8 * (63 - w)));
  if (k == 0) {
    if (w < dl0) {return old_wd;}
    if (w == dl0) {return 0x80;}
    return two ? 0 : len_byte;
  }
  return len_byte;
}
void contract_ftransform(rcutils_sha256_ctx_t * ctx)
__CPROVER_requires(ctx == &C && C.data[wd] == final_byte(k0, wd) && SAME_STATE(&C))
__CPROVER_assigns(C.state, g_state, k0)
__CPROVER_ensures(k0 == __CPROVER_old(k0) + 1 && SAME_STATE(&C))
;
void h_sha_final(void)
{
  any_ctx();
  VP_ASSUME(C.datalen < 64);
  if (vp_bool()) {
    rcutils_sha256_init(&C);
    size_t x = (size_t)vp_nd(7);
    VP_CHECK(C.state[x] == HH[x], "the initial hash value");
    VP_CHECK(C.datalen == 0 && C.bitlen == 0, "an empty message");
    VP_REACH("init");
    return;
  }
  wd = (size_t)vp_nd(63);
  dl0 = C.datalen; old_wd = C.data[wd];
  g_bits = C.bitlen + 8 * dl0;
  for (int i = 0; i < 8; ++i) {g_state[i] = C.state[i];}
  uint8_t * out = (uint8_t *)vp_buf(32);
  size_t x = (size_t)vp_nd(31);
  rcutils_sha256_final(&C, out);
  VP_CHECK(k0 == (dl0 < 56 ? 1 : 2), "one or two padded blocks are compressed");
  VP_CHECK(out[x] == (uint8_t)(g_state[x / 4] >> (24 - 8 * (x % 4))), "the digest is the final state in big-endian order");
  VP_REACH("end");
}
#else
// an independent implementation of FIPS 180-4
static const uint32_t KK[64] = {
  0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
  0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
  0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
  0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
  0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
  0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
  0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
  0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
};
static const uint32_t HH[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
static uint32_t rr(uint32_t x, int n) {return (x >> n) | (x << (32 - n));}
static void ref_sha(const unsigned char * msg, size_t n, unsigned char out[32])
{
  uint32_t h[8];
  for (int i = 0; i < 8; ++i) {h[i] = HH[i];}
  size_t blocks = (n + 9 + 63) / 64;
  for (size_t b = 0; b < blocks; ++b) {
    uint32_t w[64], v[8];
    for (int t = 0; t < 16; ++t) {
      w[t] = 0;
      for (int q = 0; q < 4; ++q) {
        size_t p = 64 * b + 4 * (size_t)t + (size_t)q;
        unsigned char c = p < n ? msg[p] : p == n ? 0x80 : 0;
        if (b == blocks - 1 && p % 64 >= 56) {c = (unsigned char)((uint64_t)n * 8 >> (8 * (63 - p % 64)));}
        w[t] = w[t] << 8 | c;
      }
    }
    for (int t = 16; t < 64; ++t) {
      uint32_t s0 = rr(w[t - 15], 7) ^ rr(w[t - 15], 18) ^ (w[t - 15] >> 3), s1 = rr(w[t - 2], 17) ^ rr(w[t - 2], 19) ^ (w[t - 2] >> 10);
      w[t] = w[t - 16] + s0 + w[t - 7] + s1;
    }
    for (int i = 0; i < 8; ++i) {v[i] = h[i];}
    for (int t = 0; t < 64; ++t) {
      uint32_t t1 = v[7] + (rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + KK[t] + w[t];
      uint32_t t2 = (rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
      for (int i = 7; i > 0; --i) {v[i] = v[i - 1];}
      v[4] += t1;
      v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; ++i) {h[i] += v[i];}
  }
  for (int i = 0; i < 32; ++i) {out[i] = (unsigned char)(h[i / 4] >> (24 - 8 * (i % 4)));}
}
void h_sha_api(void)
{
  size_t n = (size_t)vp_nd(3) == 0 ? (size_t)vp_nd(400) : (size_t)vp_nd(140);
  unsigned char want[32];
  char * msg = vp_buf(n);
  uint8_t * out = (uint8_t *)vp_buf(32);
  rcutils_sha256_ctx_t c;
  memset(&c, (int)vp_nd(255), sizeof c);
  rcutils_sha256_init(&c);
  for (size_t i = 0; i < n; ) {
    size_t l = vp_nd(2) == 0 ? (size_t)vp_nd(200) : vp_nd(2) == 0 ? 64 : (size_t)vp_nd(70);
    if (l > n - i || vp_nd(11) == 0) {l = n - i;}
    char * part = (char *)(malloc)(l + (l == 0));
    memcpy(part, msg + i, l);
    rcutils_sha256_update(&c, (const uint8_t *)part, l);
    (free)(part);
    i += l;
    if (vp_nd(7) == 0) {rcutils_sha256_update(&c, NULL, 0);}
  }
  rcutils_sha256_final(&c, out);
  ref_sha((const unsigned char *)msg, n, want);
  VP_CHECK(memcmp(out, want, 32) == 0, "the digest is that of FIPS 180-4");
  (free)(msg);
}
#endif
