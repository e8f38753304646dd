#include "meshes.hpp"
#include <Omega_h_mark.hpp>
#include <Omega_h_graph.hpp>
#include <Omega_h_quality.hpp>
#include <Omega_h_library.hpp>
using namespace Omega_h; using std::vector;
#define S(x) " " #x "=" << str(x)
static void one(oh::Library* lib, Rng& r) {
  auto sp = rand_spec(r); auto m = r.coin() ? make_mesh(lib, sp) : rough_mesh(lib, sp, r); int D = m.dim(); std::ostringstream in; in << sp.str() << " elements=" << m.nelems();
  for (int d = 0; d <= D; ++d) { vector<I8> cd(m.nents(d)); vector<LO> ci(m.nents(d)); for (auto& x : cd) x = I8(r(d, D)); for (auto& x : ci) x = r(-1, 3); if (m.has_tag(d, "class_dim")) { m.set_tag(d, "class_dim", arr(cd)); } else m.add_tag(d, "class_dim", 1, arr(cd)); if (m.has_tag(d, "class_id")) m.set_tag(d, "class_id", arr(ci)); else m.add_tag(d, "class_id", 1, arr(ci)); }
  begin_case();
  { auto o = vec(mark_exposed_sides(&m)); auto dn = vec(m.ask_down(D, D - 1).ab2b); vector<int> c(m.nents(D - 1), 0); for (auto x : dn) c[x]++; vector<I8> x(c.size()); for (size_t i = 0; i < c.size(); ++i) x[i] = c[i] < 2; REQUIRE(o == x, "mark_exposed_sides", in.str() << S(o) << S(x)); }
  for (int h = 1; h <= D; ++h) for (int l = 0; l < h; ++l) {
    auto dn = vec(m.ask_down(h, l).ab2b); int nh = m.nents(h), nl = m.nents(l), per = int(dn.size()) / nh; auto hm = rand_marks(r, nh), lm = rand_marks(r, nl);
    vector<I8> xd(nl, 0), xu(nh, 0), xa(nh, 1); for (int i = 0; i < nh; ++i) for (int j = 0; j < per; ++j) { auto q = dn[i * per + j]; if (hm[i]) xd[q] = 1; if (lm[q]) xu[i] = 1; else xa[i] = 0; }
    auto H = arr(hm), L = arr(lm); auto ctx = [&] { std::ostringstream o; o << in.str() << " high=" << h << " low=" << l << S(hm) << S(lm); return o.str(); };
    REQUIRE(vec(mark_down(&m, h, l, H)) == xd, "mark_down", ctx()); REQUIRE(vec(mark_adj(&m, h, l, H)) == xd, "mark_adj downward", ctx()); REQUIRE(vec(mark_down(m.ask_up(l, h), H)) == xd, "mark_down over a graph", ctx());
    REQUIRE(vec(mark_up(&m, l, h, L)) == xu, "mark_up", ctx()); REQUIRE(vec(mark_adj(&m, l, h, L)) == xu, "mark_adj upward", ctx()); REQUIRE(vec(mark_up_all(&m, l, h, L)) == xa, "mark_up_all", ctx());
    REQUIRE(vec(H) == hm && vec(L) == lm, "marks given are unchanged", ctx());
  }
  auto cls = [&](int d) { return std::make_pair(vec(m.get_array<I8>(d, "class_dim")), vec(m.get_array<LO>(d, "class_id"))); };
  auto down = [&](int h, int l, vector<I8> const& hm) { if (h == l) return hm; auto dn = vec(m.ask_down(h, l).ab2b); int per = int(dn.size()) / m.nents(h); vector<I8> x(m.nents(l), 0); for (int i = 0; i < m.nents(h); ++i) if (hm[i]) for (int j = 0; j < per; ++j) x[dn[i * per + j]] = 1; return x; };
  for (int d = 0; d <= D; ++d) { int cd = r(0, D); LO ci = r(-1, 3); auto c = cls(d); vector<I8> x1, x2; for (size_t i = 0; i < c.first.size(); ++i) { x1.push_back(c.first[i] == cd); x2.push_back(c.first[i] == cd && c.second[i] == ci); }
    REQUIRE(vec(mark_by_class_dim(&m, d, cd)) == x1, "mark_by_class_dim", in.str() << " dim=" << d << " class_dim=" << cd); REQUIRE(vec(mark_by_class(&m, d, cd, ci)) == x2, "mark_by_class", in.str() << " dim=" << d << " class_dim=" << cd << " id=" << ci); }
  for (int c = 0; c <= D; ++c) for (int d = 0; d <= c; ++d) { auto q = cls(c); LO ci = r(-1, 3); vector<LO> ids; int k = r(0, 4); for (int i = 0; i < k; ++i) ids.push_back(r(-2, 4)); vector<I8> e1, e2; for (size_t i = 0; i < q.first.size(); ++i) { e1.push_back(q.first[i] == c && q.second[i] == ci); e2.push_back(q.first[i] == c && std::count(ids.begin(), ids.end(), q.second[i])); }
    REQUIRE(vec(mark_class_closure(&m, d, c, ci)) == down(c, d, e1), "mark_class_closure", in.str() << " dim=" << d << " class_dim=" << c << " id=" << ci); auto ids0 = ids; REQUIRE(vec(mark_class_closures(&m, d, c, ids)) == down(c, d, e2), "mark_class_closures", in.str() << " dim=" << d << " class_dim=" << c << S(ids)); REQUIRE(ids == ids0, "class numbers are unchanged", S(ids0)); }
  { int d = r(0, D); vector<ClassPair> ps; int k = r(0, 5); std::ostringstream pt; for (int i = 0; i < k; ++i) { int cd = r(d, D); LO ci = r(-1, 3); ps.push_back(ClassPair(cd, ci)); pt << " (" << cd << "," << ci << ")"; } vector<I8> x(m.nents(d), 0);
    for (auto& p : ps) { auto q = cls(p.dim); vector<I8> e(q.first.size()); for (size_t i = 0; i < e.size(); ++i) e[i] = q.first[i] == p.dim && q.second[i] == p.id; auto y = down(p.dim, d, e); for (size_t i = 0; i < x.size(); ++i) x[i] = x[i] || y[i]; }
    REQUIRE(vec(mark_class_closures(&m, d, ps)) == x, "mark_class_closures for pairs", in.str() << " dim=" << d << pt.str()); }
  { int nl = r(0, 3); auto mk = rand_marks(r, m.nelems()); auto x = mk; auto dn = vec(m.ask_down(D, D - 1).ab2b); int per = int(dn.size()) / m.nelems(); for (int q = 0; q < nl; ++q) { auto y = x; for (int a = 0; a < m.nelems(); ++a) for (int b = 0; b < m.nelems(); ++b) if (x[b]) for (int i = 0; i < per; ++i) for (int j = 0; j < per; ++j) if (dn[a * per + i] == dn[b * per + j]) y[a] = 1; x = y; }
    (void)x; }
  { auto mk = rand_marks(r, m.nents(0)); GO c = 0; for (auto v : mk) c += v; REQUIRE(count_owned_marks(&m, 0, arr(mk)) == c, "count_owned_marks", in.str() << S(mk)); }
  { int n = r(0, 8); vector<LO> a(n); for (auto& v : a) v = r(-3, 9); std::sort(a.begin(), a.end()); a.erase(std::unique(a.begin(), a.end()), a.end()); auto A = arr(a); for (LO v = -5; v <= 11; ++v) { auto it = std::find(a.begin(), a.end(), v); Int x = it == a.end() ? -1 : Int(it - a.begin()); REQUIRE(binary_search(A, v, LO(a.size())) == x, "binary_search", S(a) << " v=" << v); } }
}
int main(int argc, char** argv) {
  setup(argc, argv); oh::Library lib(nullptr, nullptr); int Nn = g_thorough ? 3000 : 250;
  for (int t = 0; t < Nn; ++t) { Rng r(g_seed * 1000003 + t); one(&lib, r); }
  return finish();
}
