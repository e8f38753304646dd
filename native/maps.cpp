#include "common.hpp"
#include <Omega_h_graph.hpp>
#include <Omega_h_int_scan.hpp>
#include <Omega_h_sort.hpp>
#include <Omega_h_linpart.hpp>
using namespace Omega_h;
using std::vector;
static vector<LO> inj(Rng& r, int na, int nb) { vector<LO> p(nb); std::iota(p.begin(), p.end(), 0); for (int i = nb - 1; i > 0; --i) std::swap(p[i], p[r(0, i)]); p.resize(na); return p; }
static vector<LO> anymap(Rng& r, int na, int nb) { vector<LO> p(na); for (auto& x : p) x = r(0, nb - 1); return p; }
static vector<LO> fan(Rng& r, int na, int maxdeg) { vector<LO> p(na + 1, 0); for (int i = 0; i < na; ++i) p[i + 1] = p[i] + r(0, maxdeg); return p; }
#define S(x) " " #x "=" << str(x)
template <class T> static vector<T> rv(Rng& r, size_t n) { vector<T> v(n); for (auto& x : v) x = rand_val<T>(r); return v; }
template <class T> static void typed(Rng& r, const char* tn) {
  int nb = r(0, 9), na = nb ? r(0, nb) : 0, w = r(1, 4);
  std::ostringstream tag; tag << " T=" << tn << " na=" << na << " nb=" << nb << " w=" << w;
  auto bd = rv<T>(r, size_t(nb) * w); auto ad = rv<T>(r, size_t(na) * w);
  { begin_case(); auto m = anymap(r, nb ? na : 0, nb); auto o = vec(unmap(arr(m), arr(bd), w)); vector<T> e; for (auto x : m) for (int j = 0; j < w; ++j) e.push_back(bd[x * w + j]);
    REQUIRE(o == e, "unmap: entry (i,j) is entry (a2b[i],j)", tag.str() << S(m) << S(bd) << S(o)); }
  { begin_case(); int b = r(0, nb), en = r(b, nb); auto o = vec(unmap_range(b, en, arr(bd), w)); vector<T> e(bd.begin() + b * w, bd.begin() + en * w);
    REQUIRE(o == e, "unmap_range", tag.str() << " begin=" << b << " end=" << en << S(bd) << S(o)); }
  { begin_case(); auto m = inj(r, na, nb); auto b = warr(bd); map_into(arr(ad), arr(m), b, w); auto e = bd; for (int i = 0; i < na; ++i) for (int j = 0; j < w; ++j) e[m[i] * w + j] = ad[i * w + j];
    auto o = vec(b); REQUIRE(o == e, "map_into", tag.str() << S(m) << S(ad) << S(bd) << S(o)); 
    auto b2 = warr(bd); add_into(arr(ad), arr(m), b2, w); auto e2 = bd; for (int i = 0; i < na; ++i) for (int j = 0; j < w; ++j) e2[m[i] * w + j] = T(e2[m[i] * w + j] + ad[i * w + j]);
    auto o2 = vec(b2); REQUIRE(o2 == e2, "add_into", tag.str() << S(m) << S(ad) << S(bd) << S(o2));
    T iv = rand_val<T>(r); auto o3 = vec(map_onto(arr(ad), arr(m), nb, iv, w)); vector<T> e3(size_t(nb) * w, iv); for (int i = 0; i < na; ++i) for (int j = 0; j < w; ++j) e3[m[i] * w + j] = ad[i * w + j];
    REQUIRE(o3 == e3, "map_onto", tag.str() << S(m) << S(ad) << S(o3)); }
  { begin_case(); auto m = anymap(r, nb ? na : 0, nb); auto b = warr(rv<T>(r, nb)); auto e = vec(b); T v = rand_val<T>(r); map_value_into(v, arr(m), b); for (auto x : m) e[x] = v; auto o = vec(b);
    REQUIRE(o == e, "map_value_into", tag.str() << S(m) << S(o)); }
  { begin_case(); int b = r(0, nb), en = r(b, nb); auto d = rv<T>(r, size_t(en - b) * w); auto t = warr(bd); map_into_range(arr(d), b, en, t, w); auto e = bd; std::copy(d.begin(), d.end(), e.begin() + b * w); auto o = vec(t);
    REQUIRE(o == e, "map_into_range", tag.str() << " begin=" << b << " end=" << en << S(d) << S(o)); }
  { begin_case(); auto p = inj(r, nb, nb); auto o = vec(permute(arr(bd), arr(p), w)); vector<T> e(bd.size()); for (int i = 0; i < nb; ++i) for (int j = 0; j < w; ++j) e[p[i] * w + j] = bd[i * w + j];
    REQUIRE(o == e, "permute", tag.str() << S(p) << S(bd) << S(o)); }
  { begin_case(); auto f = fan(r, na, 3); int n = f.back(); vector<T> e(size_t(n) * w); for (int i = 0; i < na; ++i) for (int x = f[i]; x < f[i + 1]; ++x) for (int j = 0; j < w; ++j) e[x * w + j] = ad[i * w + j];
    auto o = vec(expand(arr(ad), arr(f), w)); REQUIRE(o == e, "expand", tag.str() << S(f) << S(ad) << S(o));
    auto t = warr(rv<T>(r, size_t(n) * w)); expand_into(arr(ad), arr(f), t, w); o = vec(t); REQUIRE(o == e, "expand_into", tag.str() << S(f) << S(ad) << S(o));
    auto bdat = rv<T>(r, size_t(n) * w);
    Omega_h_Op ops[] = {OMEGA_H_MIN, OMEGA_H_MAX, OMEGA_H_SUM};
    for (auto op : ops) {
      auto o2 = vec(fan_reduce(arr(f), arr(bdat), w, op)); vector<T> e2;
      for (int i = 0; i < na; ++i) for (int j = 0; j < w; ++j) {
        T a = op == OMEGA_H_SUM ? T(0) : op == OMEGA_H_MIN ? ArithTraits<T>::max() : ArithTraits<T>::min();
        for (int x = f[i]; x < f[i + 1]; ++x) { T v = bdat[x * w + j]; if (op == OMEGA_H_SUM) a = T(a + v); else if (op == OMEGA_H_MIN) a = std::min(a, v); else a = std::max(a, v); }
        e2.push_back(a); }
      REQUIRE(o2 == e2, "fan_reduce", tag.str() << " op=" << int(op) << S(f) << S(bdat) << S(o2)); }
    Graph g(arr(f), arr(anymap(r, nb ? n : 0, nb))); if (nb) for (auto op : ops) { auto ab = vec(g.ab2b);
      auto o2 = vec(graph_reduce(g, arr(bd), w, op)); vector<T> e2;
      for (int i = 0; i < na; ++i) for (int j = 0; j < w; ++j) { T a = op == OMEGA_H_SUM ? T(0) : op == OMEGA_H_MIN ? ArithTraits<T>::max() : ArithTraits<T>::min();
        for (int x = f[i]; x < f[i + 1]; ++x) { T v = bd[ab[x] * w + j]; if (op == OMEGA_H_SUM) a = T(a + v); else if (op == OMEGA_H_MIN) a = std::min(a, v); else a = std::max(a, v); } e2.push_back(a); }
      REQUIRE(o2 == e2, "graph_reduce", tag.str() << S(f) << S(ab) << S(bd) << S(o2)); }
  }
}
static bool is_inverse(vector<LO> const& a2b, int nb, Graph const& g, bool sorted, std::string& why) {
  auto off = vec(g.a2ab), it = vec(g.ab2b);
  if (int(off.size()) != nb + 1 || off[0] != 0 || off[nb] != int(a2b.size()) || it.size() != a2b.size()) { why = "offsets"; return false; }
  vector<int> seen(a2b.size(), 0);
  for (int b = 0; b < nb; ++b) { if (off[b] > off[b + 1]) { why = "monotone"; return false; }
    for (int x = off[b]; x < off[b + 1]; ++x) { int a = it[x]; if (a < 0 || a >= int(a2b.size()) || a2b[a] != b || seen[a]++) { why = "member"; return false; } if (sorted && x > off[b] && it[x - 1] >= a) { why = "order"; return false; } } }
  return true;
}
static void ints(Rng& r) {
  int nb = r(0, 8), na = nb ? r(0, 12) : 0, nc = r(1, 6);
  { begin_case(); auto a = anymap(r, na, nb), b = anymap(r, nb, nc); auto o = vec(compound_maps(arr(a), arr(b))); vector<LO> e; for (auto x : a) e.push_back(b[x]); REQUIRE(o == e, "compound_maps", S(a) << S(b) << S(o)); }
  { begin_case(); auto p = inj(r, nb, nb); auto o = vec(invert_permutation(arr(p))); bool ok = int(o.size()) == nb; for (int i = 0; ok && i < nb; ++i) ok = o[p[i]] == i; REQUIRE(ok, "invert_permutation", S(p) << S(o)); }
  { begin_case(); int k = r(0, nb); auto p = inj(r, k, nb); auto o = vec(invert_injective_map(arr(p), nb)); vector<LO> e(nb, -1); for (int i = 0; i < k; ++i) e[p[i]] = i; REQUIRE(o == e, "invert_injective_map", S(p) << S(o));
    auto b = rv<LO>(r, nb); auto t = warr(b); inject_map(arr(p), t); for (int i = 0; i < k; ++i) b[p[i]] = i; o = vec(t); REQUIRE(o == b, "inject_map", S(p) << S(o)); }
  { begin_case(); vector<I8> m(nb); for (auto& x : m) x = I8(r(0, 1)); auto o = vec(invert_marks(arr(m))); auto c = vec(collect_marked(arr(m))); vector<I8> e; vector<LO> ec; for (int i = 0; i < nb; ++i) { e.push_back(!m[i]); if (m[i]) ec.push_back(i); }
    REQUIRE(o == e, "invert_marks", S(m) << S(o)); REQUIRE(c == ec, "collect_marked", S(m) << S(c)); }
  { begin_case(); auto a = anymap(r, na, nb); auto o = vec(mark_image(arr(a), nb)); vector<I8> e(nb, 0); for (auto x : a) e[x] = 1; REQUIRE(o == e, "mark_image", S(a) << S(o));
    std::string why; auto g = invert_map_by_atomics(arr(a), nb); REQUIRE(is_inverse(a, nb, g, false, why), "invert_map_by_atomics", why << S(a) << " nb=" << nb << " off=" << str(vec(g.a2ab)) << " items=" << str(vec(g.ab2b)));
    auto g2 = invert_map_by_sorting(arr(a), nb); REQUIRE(is_inverse(a, nb, g2, true, why), "invert_map_by_sorting", why << S(a) << " nb=" << nb << " off=" << str(vec(g2.a2ab)) << " items=" << str(vec(g2.ab2b)));
    if (nb) { auto s = a; std::sort(s.begin(), s.end()); auto f = vec(invert_funnel(arr(s), nb)); vector<LO> e2(nb + 1, 0); for (int b = 0; b <= nb; ++b) e2[b] = LO(std::lower_bound(s.begin(), s.end(), b) - s.begin()); REQUIRE(f == e2, "invert_funnel", S(s) << " na=" << nb << S(f)); } }
  { begin_case(); auto f = fan(r, r(0, 7), 3); int n = int(f.size()) - 1; auto d = vec(get_degrees(arr(f))); auto pre = vec(mark_fan_preimage(arr(f))); auto inv = vec(invert_fan(arr(f))); vector<LO> ed, ei; vector<I8> ep; for (int i = 0; i < n; ++i) { ed.push_back(f[i + 1] - f[i]); ep.push_back(f[i + 1] > f[i]); for (int x = f[i]; x < f[i + 1]; ++x) ei.push_back(i); }
    REQUIRE(d == ed, "get_degrees", S(f) << S(d)); REQUIRE(pre == ep, "mark_fan_preimage", S(f) << S(pre)); REQUIRE(inv == ei, "invert_fan", S(f) << S(inv));
    auto f2 = fan(r, n, 3); auto mf = vec(multiply_fans(arr(f), arr(f2))); vector<LO> em(1, 0); for (int i = 0; i < n; ++i) em.push_back(em.back() + (f[i + 1] - f[i]) * (f2[i + 1] - f2[i])); REQUIRE(mf == em, "multiply_fans", S(f) << S(f2) << S(mf)); }
  { begin_case(); int n = r(0, 12); vector<LO> a(n); vector<I8> b(n); for (auto& x : a) x = r(0, 9); for (auto& x : b) x = I8(r(0, 1)); auto o = vec(offset_scan(arr(a))), o2 = vec(offset_scan(arr(b))); vector<LO> e(1, 0), e2(1, 0); for (auto x : a) e.push_back(e.back() + x); for (auto x : b) e2.push_back(e2.back() + x);
    REQUIRE(o == e, "offset_scan<int>", S(a) << S(o)); REQUIRE(o2 == e2, "offset_scan<byte>", S(b) << S(o2));
    vector<LO> h(n); for (auto& x : h) x = r(0, 2) ? -1 : r(0, 99); if (n) { h[0] = r(0, 99); auto t = warr(h); fill_right(t); auto o3 = vec(t); auto e3 = h; for (int i = 1; i < n; ++i) if (e3[i] == -1) e3[i] = e3[i - 1]; std::vector<LO> mx = h; for (int i = 1; i < n; ++i) mx[i] = std::max(mx[i - 1], mx[i]); REQUIRE(o3 == mx, "fill_right", S(h) << S(o3)); } }
}
template <class T> static void keys(Rng& r, const char* tn) {
  int w = r(1, 3), n = r(0, 12); vector<T> k(size_t(n) * w); int hi = r(0, 1) ? 2 : 40; for (auto& x : k) x = T(r(-hi, hi)) * (sizeof(T) == 8 && r(0, 1) ? T(1) << 33 : T(1));
  begin_case(); auto p = vec(sort_by_keys(arr(k), w)); vector<LO> e(n); std::iota(e.begin(), e.end(), 0);
  for (int i = 1; i < n; ++i) for (int j = i; j > 0; --j) { auto lt = [&](LO x, LO y) { for (int c = 0; c < w; ++c) if (k[x * w + c] != k[y * w + c]) return k[x * w + c] < k[y * w + c]; return false; }; if (lt(e[j], e[j - 1])) std::swap(e[j], e[j - 1]); else break; }
  REQUIRE(p == e, "sort_by_keys: stable lexicographic order", tn << " w=" << w << S(k) << S(p));
}
static void small_range(Rng& r) {
  begin_case(); int n = r(0, 12); int b = r(-5, 5); vector<I32> v(n); for (auto& x : v) x = b + r(0, 5);
  LOs perm, f; Read<I32> u; sort_small_range(arr(v), &perm, &f, &u); auto p = vec(perm), fa = vec(f), un = vec(u);
  vector<I32> eu(v); std::sort(eu.begin(), eu.end()); eu.erase(std::unique(eu.begin(), eu.end()), eu.end()); vector<LO> ef(1, 0), ep; for (auto x : eu) { for (int i = 0; i < n; ++i) if (v[i] == x) ep.push_back(i); ef.push_back(LO(ep.size())); }
  vector<LO> inv(n), ip; for (int i = 0; i < n; ++i) inv[ep[i]] = i;
  REQUIRE(un == eu && fa == ef && p == inv, "sort_small_range", S(v) << S(p) << S(fa) << S(un));
}
int main(int argc, char** argv) {
  setup(argc, argv); auto lib = Library(&argc, &argv); Rng r(g_seed);
  int N = g_thorough ? 4000 : 400;
  for (int i = 0; i < N; ++i) { typed<I8>(r, "I8"); typed<I32>(r, "I32"); typed<I64>(r, "I64"); typed<Real>(r, "Real"); ints(r); keys<LO>(r, "LO"); keys<GO>(r, "GO"); small_range(r); }
  return finish();
}
