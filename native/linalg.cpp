#include "common.hpp"
#include <Omega_h_matrix.hpp>
#include <Omega_h_mesh.hpp>
using namespace Omega_h;
static double tol(double s) { return 1e-9 * (1 + std::fabs(s)); }
#define NEAR(a, b, what, in) do { double a_ = (a), b_ = (b); REQUIRE(std::fabs(a_ - b_) <= tol(a_) + tol(b_), what, in << " got " << a_ << " want " << b_); } while (0)
template <int m, int n> static Matrix<m, n> rm(Rng& r) { Matrix<m, n> a; for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) a[j][i] = r(-40, 40) / 8.0; return a; }
template <int n> static Vector<n> rv(Rng& r) { Vector<n> a; for (int i = 0; i < n; ++i) a[i] = r(-40, 40) / 8.0; return a; }
template <int m, int n> static std::string s(Matrix<m, n> const& a) { std::ostringstream o; o << "["; for (int i = 0; i < m; ++i) { for (int j = 0; j < n; ++j) o << a[j][i] << " "; o << ";"; } o << "]"; return o.str(); }
template <int n> static std::string s(Vector<n> const& a) { std::ostringstream o; o << "("; for (int i = 0; i < n; ++i) o << a[i] << " "; o << ")"; return o.str(); }
template <int n> static void isid(Matrix<n, n> const& a, std::string const& what, std::string const& in) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) NEAR(a[j][i], i == j ? 1 : 0, what, in); }
static double det(int n, double a[3][3]) { if (n == 1) return a[0][0]; if (n == 2) return a[0][0] * a[1][1] - a[0][1] * a[1][0];
  return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]); }
template <int m, int n> static void rect(Rng& r) {
  begin_case(); auto a = rm<m, n>(r), b = rm<m, n>(r); auto v = rv<n>(r); auto u = rv<m>(r); double t = r(-40, 40) / 8.0; auto in = s(a) + s(b) + s(v) + s(u);
  auto p = a * v; double ip = 0, nn = 0;
  for (int i = 0; i < m; ++i) { double w = 0; for (int j = 0; j < n; ++j) { w += a(i, j) * v(j); ip += a(i, j) * b(i, j); nn += a(i, j) * a(i, j); } NEAR(p(i), w, "matrix times vector", in); }
  NEAR(inner_product(a, b), ip, "inner_product", in);
  auto tr = transpose(a); auto sum = a + b, dif = a - b, sc = a * t, sc2 = t * a, ng = -a; auto op = outer_product(u, v); auto mv = matrix2vector(a); auto back = vector2matrix<m, n>(mv);
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) {
    NEAR(tr(j, i), a(i, j), "transpose", in); NEAR(sum(i, j), a(i, j) + b(i, j), "sum", in); NEAR(dif(i, j), a(i, j) - b(i, j), "difference", in); NEAR(sc(i, j), a(i, j) * t, "scaled", in); NEAR(sc2(i, j), a(i, j) * t, "scaled", in); NEAR(ng(i, j), -a(i, j), "negated", in);
    NEAR(op(i, j), u(i) * v(j), "outer_product", in); NEAR(mv(i * n + j), a(i, j), "matrix2vector", in); NEAR(back(i, j), a(i, j), "vector2matrix", in); }
  if (t != 0) { auto q = a / t; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) NEAR(q(i, j) * t, a(i, j), "matrix over scalar", in); }
}
template <int m, int p, int n> static void prod(Rng& r) { begin_case(); auto a = rm<m, p>(r); auto b = rm<p, n>(r); auto c = a * b; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { double w = 0; for (int k = 0; k < p; ++k) w += a(i, k) * b(k, j); NEAR(c(i, j), w, "matrix product", s(a) << s(b)); } }
template <int n> static std::vector<std::pair<int,int>> osh() { if (n == 1) return {{0,0}}; if (n == 2) return {{0,0},{1,1},{0,1}}; return {{0,0},{1,1},{2,2},{0,1},{1,2},{0,2}}; }
template <int n> static std::vector<std::pair<int,int>> inria() { if (n == 1) return {{0,0}}; if (n == 2) return {{0,0},{0,1},{1,1}}; return {{0,0},{0,1},{1,1},{0,2},{1,2},{2,2}}; }
template <int n> static void square(Rng& r) {
  begin_case(); auto a = rm<n, n>(r); auto in = s(a); double q[3][3]; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) q[i][j] = a(i, j);
  double d = det(n, q); NEAR(determinant(a), d, "determinant", in);
  double tr = 0, f = 0; for (int i = 0; i < n; ++i) { tr += q[i][i]; for (int j = 0; j < n; ++j) f += q[i][j] * q[i][j]; }
  NEAR(trace(a), tr, "trace", in); NEAR(norm(a), std::sqrt(f), "norm", in);
  auto dv = deviator(a); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) NEAR(dv(i, j), q[i][j] - (i == j ? tr / n : 0), "deviator", in);
  if (std::fabs(d) > 0.5) { isid<n>(a * invert(a), "invert", in); isid<n>(a * pseudo_invert(a), "pseudo_invert", in); }
  isid<n>(identity_matrix<n, n>(), "identity", "");
  auto v = rv<n>(r), w = rv<n>(r); auto dg = diagonal(v); for (int i = 0; i < n; ++i) { NEAR(diagonal(a)(i), q[i][i], "diagonal", in); for (int j = 0; j < n; ++j) NEAR(dg(i, j), i == j ? v(i) : 0, "diagonal", s(v)); }
  double ip = 0, vv = 0, ww = 0; for (int i = 0; i < n; ++i) { ip += v(i) * w(i); vv += v(i) * v(i); ww += w(i) * w(i); }
  NEAR(v * w, ip, "inner product", s(v) << s(w)); NEAR(norm(v), std::sqrt(vv), "norm", s(v));
  if (vv > 0) { auto u = normalize(v); NEAR(u * u, 1, "normalize", s(v)); for (int i = 0; i < n; ++i) NEAR(u(i) * std::sqrt(vv), v(i), "normalize", s(v));
    auto B = form_ortho_basis(u); isid<n>(transpose(B) * B, "form_ortho_basis", s(u)); for (int i = 0; i < n; ++i) NEAR(B(i, 0), u(i), "form_ortho_basis", s(u)); }
  if (ww > 0) { auto p = project(v, w); for (int i = 0; i < n; ++i) NEAR(p(i) * ww, ip * w(i), "project", s(v) << s(w)); }
  auto x = (v + w) * 2.5 - (-w) - 0.5 * v; for (int i = 0; i < n; ++i) NEAR(x(i), (v(i) + w(i)) * 2.5 + w(i) - 0.5 * v(i), "vector algebra", s(v) << s(w));
  auto sy = a + transpose(a); auto o = osh<n>(), g = inria<n>(); auto sv = symm2vector(sy), si = symm2vector_inria(sy); auto b1 = vector2symm(sv), b2 = vector2symm_inria(si);
  for (size_t k = 0; k < o.size(); ++k) { NEAR(sv(int(k)), sy(o[k].first, o[k].second), "symm2vector", s(sy)); NEAR(si(int(k)), sy(g[k].first, g[k].second), "symm2vector_inria", s(sy)); }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { NEAR(b1(i, j), sy(i, j), "vector2symm", s(sy)); NEAR(b2(i, j), sy(i, j), "vector2symm_inria", s(sy)); }
  // arrays
  int N = r(0, 6); std::vector<double> ms, vs, ms2, ss; constexpr int nc = symm_ncomps(n);
  for (int i = 0; i < N * n * n; ++i) { ms.push_back(r(-40, 40) / 8.0); ms2.push_back(r(-40, 40) / 8.0); } for (int i = 0; i < N * n; ++i) vs.push_back(r(-40, 40) / 8.0); for (int i = 0; i < N * nc; ++i) ss.push_back(r(-40, 40) / 8.0);
  auto mv = vec(matrices_times_vectors(arr(ms), arr(vs), n)), mm = vec(matrices_times_matrices(arr(ms), arr(ms2), n)); auto m2s = vec(matrices_to_symms(arr(ms), n)), i2o = vec(symms_inria2osh(n, arr(ss))), o2i = vec(symms_osh2inria(n, arr(ss)));
  REQUIRE(mv.size() == vs.size() && mm.size() == ms.size() && m2s.size() == ss.size() && i2o.size() == ss.size() && o2i.size() == ss.size(), "sizes", N); if (g_fails) return;
  auto idx = [](std::vector<std::pair<int,int>> const& l, std::pair<int,int> p) { for (size_t k = 0; k < l.size(); ++k) if (l[k] == p || l[k] == std::make_pair(p.second, p.first)) return k; return size_t(99); };
  for (int e = 0; e < N; ++e) {
    for (int i = 0; i < n; ++i) { double t = 0; for (int j = 0; j < n; ++j) t += ms[size_t((e * n + i) * n + j)] * vs[size_t(e * n + j)]; NEAR(mv[size_t(e * n + i)], t, "matrices_times_vectors", str(ms) << str(vs));
      for (int j = 0; j < n; ++j) { double u = 0; for (int k = 0; k < n; ++k) u += ms[size_t((e * n + i) * n + k)] * ms2[size_t((e * n + k) * n + j)]; NEAR(mm[size_t((e * n + i) * n + j)], u, "matrices_times_matrices", str(ms) << str(ms2)); } }
    for (int k = 0; k < nc; ++k) { auto p = o[size_t(k)], h = g[size_t(k)]; NEAR(m2s[size_t(e * nc + k)], ms[size_t((e * n + p.first) * n + p.second)], "matrices_to_symms", str(ms));
      NEAR(i2o[size_t(e * nc + k)], ss[size_t(e * nc) + idx(g, p)], "symms_inria2osh", str(ss)); NEAR(o2i[size_t(e * nc + k)], ss[size_t(e * nc) + idx(o, h)], "symms_osh2inria", str(ss)); }
  }
  for (int D = 1; D <= 3; ++D) if (D == n || D * n == 6) { auto rs = vec(resize_symms(arr(ss), n, D)); int dc = symm_ncomps(D); auto oD = D == 1 ? osh<1>() : D == 2 ? osh<2>() : osh<3>();
    for (int e = 0; e < N; ++e) for (int k = 0; k < dc; ++k) { auto q2 = idx(o, oD[size_t(k)]); NEAR(rs[size_t(e * dc + k)], q2 == 99 ? 0 : ss[size_t(e * nc) + q2], "resize_symms", n << " to " << D << str(ss)); } }
}
template <int m, int n> static void tall(Rng& r) { auto a = rm<m, n>(r); auto g = transpose(a) * a; if (std::fabs(determinant(g)) < 1) return; begin_case(); isid<n>(pseudo_invert(a) * a, "pseudo_invert is a left inverse", s(a)); auto t = transpose(a); isid<n>(t * pseudo_invert(t), "pseudo_invert is a right inverse", s(t)); }
int main(int argc, char** argv) {
  setup(argc, argv); Library lib(&argc, &argv); Rng r(g_seed);
  for (int t = 0; t < (g_thorough ? 8000 : 700); ++t) {
    rect<1, 1>(r); rect<1, 2>(r); rect<1, 3>(r); rect<2, 1>(r); rect<2, 2>(r); rect<2, 3>(r); rect<3, 1>(r); rect<3, 2>(r); rect<3, 3>(r);
    prod<1, 2, 3>(r); prod<2, 3, 1>(r); prod<3, 1, 2>(r); prod<2, 2, 2>(r); prod<3, 3, 3>(r); prod<1, 1, 1>(r); prod<2, 3, 2>(r); prod<3, 2, 3>(r);
    square<1>(r); square<2>(r); square<3>(r); tall<2, 1>(r); tall<3, 1>(r); tall<3, 2>(r);
    begin_case(); auto a = rv<3>(r), b = rv<3>(r); auto c = cross(a, b); auto in = s(a) + s(b);
    NEAR(c(0), a(1) * b(2) - a(2) * b(1), "cross", in); NEAR(c(1), a(2) * b(0) - a(0) * b(2), "cross", in); NEAR(c(2), a(0) * b(1) - a(1) * b(0), "cross", in);
    auto cm = cross(a) * b; auto un = uncross(cross(a)); for (int i = 0; i < 3; ++i) { NEAR(cm(i), c(i), "cross matrix", in); NEAR(un(i), a(i), "uncross", in); }
    auto p = rv<2>(r), q = rv<2>(r); NEAR(cross(p, q), p(0) * q(1) - p(1) * q(0), "cross 2", s(p) << s(q)); auto pp = perp(p); NEAR(pp * p, 0, "perp", s(p)); NEAR(cross(p, pp), p * p, "perp", s(p));
    double th = r(-400, 400) / 50.0; auto R2 = rotate(th); isid<2>(transpose(R2) * R2, "rotate", std::to_string(th)); NEAR(determinant(R2), 1, "rotate", th); NEAR(R2(0, 0), std::cos(th), "rotate", th); NEAR(R2(1, 0), std::sin(th), "rotate", th);
    if (norm(a) > 0) { auto u = normalize(a); auto R3 = rotate(th, u); isid<3>(transpose(R3) * R3, "rotate about axis", s(a) + std::to_string(th)); NEAR(determinant(R3), 1, "rotate about axis", s(a) << th); auto w = R3 * u; for (int i = 0; i < 3; ++i) NEAR(w(i), u(i), "rotation axis", s(a) << th);
      auto B = form_ortho_basis(u); Vector<3> x; for (int i = 0; i < 3; ++i) x(i) = B(i, 1); auto y = R3 * x; NEAR(y * x, std::cos(th), "rotation angle", s(a) << th); NEAR(cross(x, y) * u, std::sin(th), "rotation sense", s(a) << th); }
  }
  return finish();
}
