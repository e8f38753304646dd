#include "common.hpp"
#include <Omega_h_array_ops.hpp>
#include <Omega_h_int128.hpp>
#include <Omega_h_comm.hpp>
#include <random>
using namespace Omega_h;
typedef __int128 W; typedef unsigned __int128 U;
static W w(Int128 a) { return W((U(uint64_t(a.high)) << 64) | a.low); }
static Int128 i(W v) { return Int128(int64_t(U(v) >> 64), uint64_t(U(v))); }
static std::string s(W v) { std::ostringstream o; o << int64_t(U(v) >> 64) << ":" << uint64_t(U(v)); return o.str(); }
static W rnd(Rng& r) { U v = (U(r.next()) << 64) | r.next(); switch (r(0, 4)) { case 0: v >>= r(0, 127); break; case 1: v = U(-W(v >> r(1, 127))); break; case 2: v &= ~U(0) << r(0, 127); break; case 3: v = (U(r(-1, 1)) << 64) + U(r(-2, 2)); break; default: break; } return W(v); }
static uint64_t bits(double d) { uint64_t u; std::memcpy(&u, &d, 8); return u; }
int main(int argc, char** argv) {
  setup(argc, argv); Library lib(&argc, &argv); auto world = lib.world(); auto self = lib.self(); int np = world->size(), me = world->rank(); Rng r(g_seed);
  if (np == 1) for (int k = 0; k < (g_thorough ? 2000000 : 200000); ++k) {
    begin_case(); W a = rnd(r) >> 2, b = k % 9 ? rnd(r) >> 2 : a; int n = r(1, 63);
    REQUIRE(w(i(a) + i(b)) == W(U(a) + U(b)), "Int128 +", s(a) << " + " << s(b));
    REQUIRE(w(i(a) - i(b)) == W(U(a) - U(b)), "Int128 -", s(a) << " - " << s(b));
    REQUIRE(w(-i(a)) == W(-U(a)), "Int128 unary -", s(a));
    REQUIRE(w(i(a) >> n) == (a >> n), "Int128 >>", s(a) << " >> " << n);
    REQUIRE((i(a) == i(b)) == (a == b), "Int128 ==", s(a) << " == " << s(b));
    REQUIRE((i(a) < i(b)) == (a < b), "Int128 <", s(a) << " < " << s(b));
    int64_t v = int64_t(a); REQUIRE(w(Int128(v)) == W(v), "Int128(int64)", v);
    int e = r(-300, 300); int64_t m = int64_t(r.next()) >> r(10, 62); double u = std::ldexp(1.0, e), x = std::ldexp(double(m), e);
    REQUIRE(w(Int128::from_double(x, u)) == W(m), "Int128::from_double keeps the multiple of the unit", m << " * 2^" << e);
    REQUIRE(Int128(m).to_double(u) == x, "Int128::to_double", m << " * 2^" << e);
  }
  // order and distribution of summands
  int const N = g_thorough ? 4000 : 400;
  for (int k = 0; k < N; ++k) {
    Rng c(g_seed * 1000 + uint64_t(k)); int n = c(0, 60), spread = c(0, 40), kind = c(0, 3); std::vector<double> v;
    for (int j = 0; j < n; ++j) { double x = (c.real() - (kind == 1 ? 0.0 : 0.5)) * std::ldexp(1.0, c(-spread, spread)); if (c(0, 9) == 0) x = 0; if (kind == 2) x = -std::fabs(x); v.push_back(x); if (kind == 3) { v.push_back(-x); } }
    if (k % 50 == 49) { v.assign(size_t(n), 0.0); }
    if (k % 50 == 48) { v.clear(); for (int j = 0; j < 3000; ++j) v.push_back(std::ldexp(1.0 + c.real(), 900)); }
    n = int(v.size());
    std::ostringstream in; in.precision(17); in << "values=["; for (size_t j = 0; j < v.size() && j < 70; ++j) in << v[j] << ","; in << "]";
    double ref = repro_sum(arr(v)); long double exact = 0, mag = 0; for (double x : v) { exact += x; mag = std::max(mag, std::fabs((long double)x)); }
    begin_case(); REQUIRE(std::fabs((long double)ref - exact) <= mag * n * std::ldexp(1.0L, -50) + std::fabs(exact) * std::ldexp(1.0L, -50), "sum is accurate", in.str() << " got " << ref);
    for (int p = 0; p < 4; ++p) {
      begin_case(); for (int j = n - 1; j > 0; --j) std::swap(v[size_t(j)], v[size_t(c(0, j))]);
      REQUIRE(bits(repro_sum(arr(v))) == bits(ref), "reproducible sum depends on the order", in.str());
      std::vector<double> mine; for (int j = 0; j < n; ++j) { int dest = p == 0 ? c(0, np - 1) : p == 1 ? 0 : p == 2 ? j * np / std::max(n, 1) : j % np; if (dest == me) mine.push_back(v[size_t(j)]); }
      REQUIRE(bits(repro_sum(world, arr(mine))) == bits(ref), "reproducible sum depends on the distribution over ranks", in.str() << " ranks=" << np << " rule " << p);
      REQUIRE(bits(repro_sum(self, arr(v))) == bits(ref), "reproducible sum on one rank", in.str());
      if (n) { std::vector<double> two; for (double x : mine) { two.push_back(x); two.push_back(-2 * x); } Real out[2]; repro_sum(world, arr(two), 2, out); REQUIRE(bits(out[0]) == bits(ref) && out[1] == -2 * ref, "component-wise reproducible sum", in.str()); }
    }
  }
  return finish();
}
