#include "common.hpp"
#include <Omega_h_hilbert.hpp>
#include <Omega_h_bbox.hpp>
#include <array>
using namespace Omega_h;
typedef hilbert::coord_t C;
typedef std::vector<C> V;
static V t2a(V x, int b) { hilbert::TransposetoAxes(x.data(), b, int(x.size())); return x; }
static V a2t(V x, int b) { hilbert::AxestoTranspose(x.data(), b, int(x.size())); return x; }
static bool next(V& h, int b) { // next transposed position
  int n = int(h.size());
  for (int k = 0; k < b; ++k) for (int i = n - 1; i >= 0; --i) { C m = C(1) << k; h[size_t(i)] ^= m; if (h[size_t(i)] & m) return true; }
  return false;
}
static bool adj(V const& a, V const& b) {
  int d = 0; for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) { ++d; if (a[i] + 1 != b[i] && b[i] + 1 != a[i]) return false; } return d == 1;
}
static std::string in(V const& x, int b) { std::ostringstream o; o << "n=" << x.size() << " bits=" << b << " X=" << str(x); return o.str(); }
static bool small(V const& x, int b) { for (C c : x) if (c >> b) return false; return true; }
static void point(V x, int b) {
  begin_case(); int n = int(x.size());
  V h = a2t(x, b); REQUIRE(small(h, b), "curve position in range", in(x, b)); REQUIRE(t2a(h, b) == x, "axes to curve and back", in(x, b));
  V a = t2a(x, b); REQUIRE(small(a, b), "coordinates in range", in(x, b)); REQUIRE(a2t(a, b) == x, "curve to axes and back", in(x, b));
  V y = x; if (next(y, b)) REQUIRE(adj(t2a(x, b), t2a(y, b)), "consecutive positions are face neighbours", in(x, b));
  V o(size_t(n), 77); hilbert::untranspose(x.data(), o.data(), b, n);
  std::vector<int> bits; for (int k = b - 1; k >= 0; --k) for (int i = 0; i < n; ++i) bits.push_back(int((x[size_t(i)] >> k) & 1));
  V w(size_t(n), 0); for (int i = 0; i < n * b; ++i) w[size_t(i / b)] = (w[size_t(i / b)] << 1) | C(bits[size_t(i)]);
  REQUIRE(o == w, "regrouped bits of the position", in(x, b));
}
template <int dim> static void spatial(Rng& r, int b) {
  begin_case(); Affine<dim> A; A.r = zero_matrix<dim, dim>(); Vector<dim> p; Real lo[3], s[3];
  V want(dim); double big = std::exp2(b);
  for (int i = 0; i < dim; ++i) {
    lo[i] = r(-8, 8); s[i] = std::exp2(r(-3, 3)); A.r(i, i) = 1. / s[i]; A.t[i] = -lo[i] / s[i];
    int w = r(0, 7); double u;
    if (w == 0) { u = -r.real() * 3; want[size_t(i)] = 0; if (u == 0) want[size_t(i)] = 0; }
    else if (w == 1) { u = 1. + r.real() * 3; want[size_t(i)] = (C(1) << b) - 1; }
    else if (w == 2) { u = 1.; want[size_t(i)] = (C(1) << b) - 1; }
    else if (w == 3) { u = 0.; want[size_t(i)] = 0; }
    else { C c = r.next() & ((C(1) << std::min(b, 40)) - 1); double f = (double(c) + .5) / std::exp2(std::min(b, 40)); u = f; want[size_t(i)] = C(std::floor(f * big)); }
    p[i] = lo[i] + u * s[i];
    if (w > 3) { double v = A.r(i, i) * p[i] + A.t[i]; want[size_t(i)] = std::min(C(std::floor(v * big)), (C(1) << b) - 1); }
    else if (w == 0 || w == 1) { double v = A.r(i, i) * p[i] + A.t[i]; if (v > 0 && v < 1) want[size_t(i)] = C(std::floor(v * big)); }
  }
  auto k = hilbert::from_spatial(A, b, p);
  V h = a2t(want, b), o(dim); hilbert::untranspose(h.data(), o.data(), b, dim);
  for (int i = 0; i < dim; ++i) REQUIRE(k[i] == o[size_t(i)], "key of a point", "dim=" << dim << " bits=" << b << " cell=" << str(want) << " word " << i);
}
// cell centres of a grid of 2^k cells per side, shuffled, in a box whose corners are points too
static void sorted(Rng& r, int dim, int k) {
  begin_case(); int m = 1 << k; int tot = 1; for (int i = 0; i < dim; ++i) tot *= m;
  std::vector<std::vector<Real>> p;
  for (int c = 0; c < tot; ++c) { std::vector<Real> x; int q = c; for (int i = 0; i < dim; ++i) { x.push_back(q % m + .5); q /= m; } p.push_back(x); }
  p.push_back(std::vector<Real>(size_t(dim), 0.)); p.push_back(std::vector<Real>(size_t(dim), Real(m)));
  for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[size_t(r(0, int(i) - 1))]);
  Real off[3], sc = std::exp2(r(-4, 4)); for (Real& o : off) o = r(-20, 20);
  std::vector<Real> flat; for (auto& x : p) for (int i = 0; i < dim; ++i) flat.push_back(off[i] + sc * x[size_t(i)]);
  auto perm = vec(hilbert::sort_coords(Reals(arr(flat)), dim));
  std::ostringstream s; s << "dim=" << dim << " cells per side=" << m << " order=" << str(perm);
  auto q = perm; std::sort(q.begin(), q.end()); bool ok = q.size() == p.size(); for (size_t i = 0; ok && i < q.size(); ++i) ok = q[i] == LO(i);
  REQUIRE(ok, "sort_coords is a permutation", s.str()); if (!ok) return;
  V last;
  for (LO j : perm) {
    auto& x = p[size_t(j)]; if (x[0] == 0. || x[0] == m) continue;
    V c; for (int i = 0; i < dim; ++i) c.push_back(C(x[size_t(i)]));
    if (!last.empty()) REQUIRE(adj(last, c), "sorted points walk neighbouring cells", s.str());
    last = c;
  }
}
int main(int argc, char** argv) {
  setup(argc, argv); Library lib(&argc, &argv); Rng r(g_seed);
  for (int n = 1; n <= 3; ++n) for (int b = 1; b * n <= 12; ++b) {
    int t = 1 << (b * n); std::set<V> seen;
    for (int c = 0; c < t; ++c) { V x(static_cast<size_t>(n)); for (int i = 0; i < n; ++i) x[size_t(i)] = C((c >> (b * i)) & ((1 << b) - 1)); point(x, b); seen.insert(t2a(x, b)); }
    REQUIRE(int(seen.size()) == t, "every cell is on the curve", "n=" << n << " bits=" << b);
  }
  for (int k = 0; k < (g_thorough ? 200000 : 20000); ++k) {
    int n = r(1, 3), b = k % 3 ? r(1, 52) : 52; C mask = (C(1) << b) - 1; V x; int mode = r(0, 3);
    for (int i = 0; i < n; ++i) { C v = r.next() & mask; if (mode == 1) v |= (C(1) << r(0, b - 1)) - 1; if (mode == 2) v &= ~((C(1) << r(0, b - 1)) - 1); if (mode == 3) v = r.coin() ? mask : (C(1) << r(0, b - 1)); x.push_back(v & mask); }
    if (mode == 1) { int low = r(0, b); for (C& v : x) v |= (C(1) << low) - 1; for (C& v : x) v &= mask; }   // a long carry
    point(x, b);
  }
  for (int k = 0; k < 4000; ++k) { int b = k % 2 ? 52 : r(1, 52); spatial<1>(r, b); spatial<2>(r, b); spatial<3>(r, b); }
  for (int k = 1; k <= 5; ++k) for (int t = 0; t < 4; ++t) { sorted(r, 1, k + 3); sorted(r, 2, k); if (k <= 3) sorted(r, 3, k); }
  return finish();
}
