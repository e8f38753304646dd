#include "common.hpp"
using namespace Omega_h;
using std::vector;
#define S(x) " " #x "=" << str(x)
template <class T> static vector<T> rv(Rng& r, size_t n) { vector<T> v(n); for (auto& x : v) x = T(r(-6, 6)); if (n > 2 && r(0, 2) == 0) { v[0] = std::numeric_limits<T>::max(); v[n - 1] = std::numeric_limits<T>::lowest(); } return v; }
template <class T> static T nz(T x) { return x == 0 ? T(3) : x; }
template <class T, class F> static void each(Rng& r, const char* tn, const char* what, Read<T> a, Read<T> o, F f) {
  begin_case(); auto A = vec(a), O = vec(o); vector<T> e; for (size_t i = 0; i < A.size(); ++i) e.push_back(f(int(i)));
  REQUIRE(O == e, what, " T=" << tn << S(A) << S(O) << " expected=" << str(e)); }
#define EACH(fn, call, ex) { begin_case(); auto O = vec(call); vector<T> e; for (size_t i = 0; i < a.size(); ++i) e.push_back(T(ex)); REQUIRE(O == e, fn, " T=" << tn << S(a) << S(b) << " s=" << +s << S(O) << " expected=" << str(e)); }
#define EACHB(fn, call, ex) { begin_case(); auto O = vec(call); vector<I8> e; for (size_t i = 0; i < a.size(); ++i) e.push_back(I8((ex) ? 1 : 0)); REQUIRE(O == e, fn, " T=" << tn << S(a) << S(b) << " s=" << +s << S(O) << " expected=" << str(e)); }
template <class T> static void typed(Rng& r, const char* tn, bool integral) {
  size_t n = size_t(r(0, 9)); vector<T> a(n), b(n); for (auto& x : a) x = T(r(-9, 9)); for (auto& x : b) x = r(0, 3) ? T(r(-9, 9)) : (&x - &b[0] < long(n) ? a[size_t(&x - &b[0])] : T(0)); T s = T(r(-5, 5));
  if (!integral) { for (auto& x : a) x = T(x * T(0.5)); }
  auto A = arr(a), B = arr(b);
  EACH("multiply_each_by", multiply_each_by(A, s), a[i] * s)
  EACH("divide_each_by", divide_each_by(A, nz(s)), a[i] / nz(s))
  EACH("add_each", add_each(A, B), a[i] + b[i])
  EACH("subtract_each", subtract_each(A, B), a[i] - b[i])
  EACH("add_to_each", add_to_each(A, s), a[i] + s)
  EACH("min_each", min_each(A, B), std::min(a[i], b[i]))
  EACH("max_each", max_each(A, B), std::max(a[i], b[i]))
  EACH("each_max_with", each_max_with(A, s), std::max(a[i], s))
  EACHB("each_geq_to", each_geq_to(A, s), a[i] >= s) EACHB("each_leq_to", each_leq_to(A, s), a[i] <= s)
  EACHB("each_gt", each_gt(A, s), a[i] > s) EACHB("each_lt", each_lt(A, s), a[i] < s)
  EACHB("each_neq_to", each_neq_to(A, s), a[i] != s) EACHB("each_eq_to", each_eq_to(A, s), a[i] == s)
  EACHB("gt_each", gt_each(A, B), a[i] > b[i]) EACHB("lt_each", lt_each(A, B), a[i] < b[i])
  EACHB("eq_each", eq_each(A, B), a[i] == b[i]) EACHB("neq_each", neq_each(A, B), a[i] != b[i]) EACHB("each_eq", each_eq(A, B), a[i] == b[i])
  // width broadcasting
  { size_t w = n ? size_t(r(0, 4)) : 0; vector<T> c(n * w), d(n * w); for (auto& x : c) x = T(r(-9, 9)); for (auto& x : d) x = T(r(-9, 9)); vector<T> bn = b; for (auto& x : bn) x = nz(x); vector<I8> m(n); for (auto& x : m) x = I8(r(0, 1));
    begin_case(); auto o = vec(multiply_each(arr(c), B)), q = vec(divide_each(arr(c), arr(bn))), t = vec(ternary_each(arr(m), arr(c), arr(d))); vector<T> eo, eq, et;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < w; ++j) { eo.push_back(T(c[i * w + j] * b[i])); eq.push_back(T(c[i * w + j] / bn[i])); et.push_back(m[i] ? c[i * w + j] : d[i * w + j]); }
    REQUIRE(o == eo, "multiply_each", " T=" << tn << S(c) << S(b) << S(o)); REQUIRE(q == eq, "divide_each", " T=" << tn << S(c) << S(bn) << S(q)); REQUIRE(t == et, "ternary_each", " T=" << tn << S(m) << S(c) << S(d) << S(t)); }
  { size_t w = size_t(r(1, 4)); Int k = r(0, Int(w) - 1); vector<T> c(n * w); for (auto& x : c) x = T(r(-9, 9)); begin_case(); auto o = vec(get_component(arr(c), Int(w), k)); vector<T> e; for (size_t i = 0; i < n; ++i) e.push_back(c[i * w + size_t(k)]);
    REQUIRE(o == e, "get_component", " T=" << tn << " w=" << w << " comp=" << k << S(c) << S(o)); auto t = warr(c); set_component(t, A, Int(w), k); auto f = c; for (size_t i = 0; i < n; ++i) f[i * w + size_t(k)] = a[i]; auto o2 = vec(t);
    REQUIRE(o2 == f, "set_component", " T=" << tn << " w=" << w << " comp=" << k << S(c) << S(a) << S(o2)); }
  // reductions
  { begin_case(); auto c = rv<T>(r, n); auto C = arr(c); bool same = true; for (size_t i = 0; i < n; ++i) same = same && a[i] == b[i]; REQUIRE((A == B) == same, "operator==", " T=" << tn << S(a) << S(b)); REQUIRE(A == arr(a), "operator== on equal arrays", " T=" << tn << S(a));
    if (n) { auto d = a; d[size_t(r(0, int(n) - 1))] += T(1); REQUIRE(!(A == arr(d)), "operator== on arrays with one difference", " T=" << tn << S(a) << S(d)); }
    REQUIRE(is_sorted(C) == std::is_sorted(c.begin(), c.end()), "is_sorted", " T=" << tn << S(c)); auto d = c; std::sort(d.begin(), d.end()); REQUIRE(is_sorted(arr(d)), "is_sorted on a sorted array", " T=" << tn << S(d));
    T v = n && r(0, 1) ? c[size_t(r(0, int(n) - 1))] : T(77); LO l = -1; for (size_t i = 0; i < n; ++i) if (c[i] == v) l = LO(i); REQUIRE(find_last(C, v) == l, "find_last", " T=" << tn << S(c) << " v=" << +v);
    promoted_t<T> sm = 0; for (auto x : a) sm += x; REQUIRE(get_sum(A) == sm, "get_sum", " T=" << tn << S(a) << " got=" << get_sum(A));
    vector<T> big(200 + n, std::numeric_limits<T>::is_integer && sizeof(T) == 1 ? T(127) : T(1000003 % 1000)); promoted_t<T> s2 = 0; for (auto x : big) s2 += x; REQUIRE(get_sum(arr(big)) == s2, "get_sum does not overflow the entry type", " T=" << tn << " n=" << big.size() << " v=" << +big[0] << " got=" << get_sum(arr(big)));
    T mn = ArithTraits<T>::max(), mx = ArithTraits<T>::min(); for (auto x : c) { mn = std::min(mn, x); mx = std::max(mx, x); } REQUIRE(get_min(C) == mn, "get_min", " T=" << tn << S(c) << " got=" << +get_min(C)); REQUIRE(get_max(C) == mx, "get_max", " T=" << tn << S(c) << " got=" << +get_max(C)); }
}
template <class T> static void lists(Rng& r, const char* tn) {
  for (int m = 1; m <= 5; ++m) { begin_case(); size_t n = size_t(r(0, 6)); vector<vector<T>> v(m), u(m); vector<Read<T>> rvv, ruu; std::ostringstream in;
    for (auto& x : v) { x = rv<T>(r, n); rvv.push_back(arr(x)); } for (auto& x : u) { x = rv<T>(r, size_t(r(0, 6))); ruu.push_back(arr(x)); in << str(x) << ";"; }
    vector<T> e, f; for (size_t i = 0; i < n; ++i) for (auto& x : v) e.push_back(x[i]); for (auto& x : u) f.insert(f.end(), x.begin(), x.end());
    auto o = vec(interleave(rvv)), p = vec(coalesce(ruu)); REQUIRE(o == e, "interleave", " T=" << tn << " arrays=" << m << " n=" << n << S(o) << " expected=" << str(e)); REQUIRE(p == f, "coalesce", " T=" << tn << " arrays=" << in.str() << S(p)); }
}
static bool close1(Real x, Real y, Real tol, Real fl) { Real ax = std::fabs(x), ay = std::fabs(y); if (ax <= fl && ay <= fl) return true; return std::fabs(y - x) / std::max(ax, ay) <= tol; }
static void reals(Rng& r) {
  size_t n = size_t(r(0, 8)); vector<Real> a(n), b(n); for (size_t i = 0; i < n; ++i) { a[i] = r.real() * 8 - 4; b[i] = r(0, 3) ? a[i] * (1 + (r.real() - .5) * 0.02) : r.real() * 8 - 4; if (!r(0, 5)) a[i] = b[i] = 0; if (!r(0, 7)) b[i] = 0; }
  begin_case(); Real t = r.real(), s = r.real() * 3; auto A = arr(a), B = arr(b); Real tol = 0.01, fl = r(0, 1) ? 0.05 : 1e-10; bool ok = true, ok2 = true;
  for (size_t i = 0; i < n; ++i) { ok = ok && close1(a[i], b[i], tol, fl); ok2 = ok2 && std::fabs(a[i] - b[i]) <= tol; }
  REQUIRE(are_close(A, B, tol, fl) == ok, "are_close", S(a) << S(b) << " tol=" << tol << " floor=" << fl); REQUIRE(are_close_abs(A, B, tol) == ok2, "are_close_abs", S(a) << S(b) << " tol=" << tol);
  auto o = vec(interpolate_between(A, B, t)), f = vec(fabs_each(A)), sf = vec(subtract_from_each(A, s)); auto p = vec(pow_each(Reals(fabs_each(A)), B)); vector<Real> c = a; for (auto& x : c) if (x == 0) x = 2; auto iv = vec(invert_each(arr(c))); auto mz = vec(divide_each_maybe_zero([&] { auto d = a; for (size_t i = 0; i < n; ++i) if (b[i] == 0) d[i] = 0; return arr(d); }(), B));
  bool g = o.size() == n && f.size() == n && p.size() == n && iv.size() == n && mz.size() == n && sf.size() == n;
  for (size_t i = 0; g && i < n; ++i) { REQUIRE(std::fabs(o[i] - (a[i] * (1 - t) + b[i] * t)) < 1e-12, "interpolate_between", S(a) << S(b) << " t=" << t << S(o)); REQUIRE(f[i] == std::fabs(a[i]), "fabs_each", S(a) << S(f)); REQUIRE(iv[i] == 1.0 / c[i], "invert_each", S(c) << S(iv)); Real q = b[i] == 0 ? 0 : a[i] / b[i]; REQUIRE(mz[i] == q, "divide_each_maybe_zero", S(a) << S(b) << S(mz));
    Real pe = std::pow(std::fabs(a[i]), b[i]); REQUIRE(p[i] == pe || std::fabs(p[i] - pe) <= 1e-12 * std::fabs(pe), "pow_each", S(a) << S(b) << S(p)); REQUIRE(sf[i] == a[i] - s, "subtract_from_each", S(a) << S(sf) << " s=" << s); }
  REQUIRE(g, "sizes", S(a));
  { vector<I8> m(n), k(n), e1, e2, e3, e4; for (auto& x : m) x = I8(r(0, 1)); for (auto& x : k) x = I8(r(0, 1)); for (size_t i = 0; i < n; ++i) { e1.push_back(m[i] && k[i]); e2.push_back(m[i] || k[i]); e4.push_back(I8(~m[i])); }
    auto o1 = vec(land_each(arr(m), arr(k))), o2 = vec(lor_each(arr(m), arr(k))), o3 = vec(bit_or_each(arr(m), arr(k))), o4 = vec(bit_neg_each(arr(m)));
    REQUIRE(o1 == e1, "land_each", S(m) << S(k) << S(o1)); REQUIRE(o2 == e2, "lor_each", S(m) << S(k) << S(o2)); REQUIRE(o3 == e2, "bit_or_each on marks", S(m) << S(k) << S(o3)); REQUIRE(o4 == e4, "bit_neg_each", S(m) << S(o4)); }
  { vector<LO> i(n); for (auto& x : i) x = r(-99, 99); auto o5 = vec(array_cast<Real>(arr(i))); vector<Real> e(i.begin(), i.end()); REQUIRE(o5 == e, "array_cast", S(i) << S(o5)); }
}
int main(int argc, char** argv) {
  setup(argc, argv); oh::Library lib(nullptr, nullptr); int N = g_thorough ? 1500 : 150;
  for (int t = 0; t < N; ++t) { Rng r(g_seed * 1000003 + t); typed<I8>(r, "I8", true); typed<I32>(r, "I32", true); typed<I64>(r, "I64", true); typed<Real>(r, "Real", false); lists<I8>(r, "I8"); lists<I32>(r, "I32"); lists<I64>(r, "I64"); lists<Real>(r, "Real"); reals(r); }
  return finish();
}
