#include "common.hpp"
#include <Omega_h_random.hpp>
#include <Omega_h_random_inline.hpp>
using namespace Omega_h;
static void ref_philox(uint32_t c[4], uint32_t k0, uint32_t k1) {
  for (int i = 0; i < 10; ++i) { if (i) { k0 += 0x9E3779B9u; k1 += 0xBB67AE85u; }
    uint64_t p0 = uint64_t(c[0]) * 0xD2511F53u, p1 = uint64_t(c[2]) * 0xCD9E8D57u;
    uint32_t n[4] = {uint32_t(p1 >> 32) ^ c[1] ^ k0, uint32_t(p1), uint32_t(p0 >> 32) ^ c[3] ^ k1, uint32_t(p0)}; std::memcpy(c, n, 16); }
}
static uint64_t ref_word(uint64_t seed, uint64_t key, uint64_t counter) {
  uint64_t b = counter >> 1; uint32_t c[4] = {uint32_t(b), uint32_t(b >> 32), uint32_t(seed), uint32_t(seed >> 32)};
  ref_philox(c, uint32_t(key), uint32_t(key >> 32)); int o = counter & 1 ? 2 : 0; return uint64_t(c[o]) | uint64_t(c[o + 1]) << 32;
}
int main(int argc, char** argv) {
  setup(argc, argv); Library lib(&argc, &argv); Rng r(g_seed);
  struct { uint32_t c[4], k[2], w[4]; } kat[] = {{{0,0,0,0},{0,0},{0x6627e8d5,0xe169c58d,0xbc57ac4c,0x9b00dbd8}},{{~0u,~0u,~0u,~0u},{~0u,~0u},{0x408f276d,0x41c83b0e,0xa20bc7c6,0x6d5451fd}},{{0x243f6a88,0x85a308d3,0x13198a2e,0x03707344},{0xa4093822,0x299f31d0},{0xd16cfe09,0x94fdcceb,0x5001e420,0x24126ea1}}};
  for (auto& t : kat) { begin_case(); Few<uint64_t, 2> c; c[0] = t.c[0] | uint64_t(t.c[1]) << 32; c[1] = t.c[2] | uint64_t(t.c[3]) << 32; auto g = run_philox_cbrng(c, t.k[0] | uint64_t(t.k[1]) << 32);
    REQUIRE(g[0] == (t.w[0] | uint64_t(t.w[1]) << 32) && g[1] == (t.w[2] | uint64_t(t.w[3]) << 32), "published known-answer vector", t.c[0]); }
  for (int i = 0; i < (g_thorough ? 200000 : 20000); ++i) { begin_case(); uint64_t a = r.next() >> r(0, 63), b = r.next() >> r(0, 63), k = r.next() >> r(0, 63);
    Few<uint64_t, 2> c; c[0] = a; c[1] = b; auto g = run_philox_cbrng(c, k); uint32_t w[4] = {uint32_t(a), uint32_t(a >> 32), uint32_t(b), uint32_t(b >> 32)}; ref_philox(w, uint32_t(k), uint32_t(k >> 32));
    REQUIRE(g[0] == (w[0] | uint64_t(w[1]) << 32) && g[1] == (w[2] | uint64_t(w[3]) << 32), "block function", a << " " << b << " " << k);
    uint64_t x = i < 70 ? (i < 64 ? 1ull << i : ~0ull >> (i - 64) * 5) : r.next(); double u = unit_uniform_deviate_from_uint64(x); REQUIRE(u >= 0.0 && u <= 1.0 && std::fabs(u - double(x) / 18446744073709551616.0) < 1e-15, "deviate range", x); }
  for (int i = 0; i < (g_thorough ? 20000 : 2000); ++i) { begin_case(); I64 seed = I64(r.next() >> r(0, 63)), key = I64(r.next() >> r(0, 63)), ctr = I64(r.next() >> r(0, 63)); if (i < 40) ctr = i;
    UnitUniformDistribution d(seed, key, ctr); int n = r(1, 9);
    for (int k = 0; k < n; ++k) { double g = d(), w = unit_uniform_deviate_from_uint64(ref_word(uint64_t(seed), uint64_t(key), uint64_t(ctr) + uint64_t(k)));
      REQUIRE(g == w, "draw is the word its counter selects", "seed " << seed << " key " << key << " starting counter " << ctr << " draw " << k); }
    std::vector<GO> gl; int m = r(0, 9); for (int k = 0; k < m; ++k) gl.push_back(GO(r.next() >> r(1, 63)));
    auto a = vec(unit_uniform_random_reals_from_globals(arr(gl), seed, ctr)); REQUIRE(int(a.size()) == m, "size", m);
    for (int k = 0; k < m; ++k) REQUIRE(a[size_t(k)] == unit_uniform_deviate_from_uint64(ref_word(uint64_t(seed), uint64_t(gl[size_t(k)]), uint64_t(ctr))), "array of random numbers", "seed " << seed << " counter " << ctr << " globals " << str(gl)); }
  return finish();
}
