#include "common.hpp"
#include <Omega_h_adj.hpp>
#include <Omega_h_align.hpp>
#include <Omega_h_element.hpp>
#include <Omega_h_mark.hpp>
using namespace Omega_h;
using std::vector;
#define S(x) " " #x "=" << str(x)
typedef vector<LO> VL;
// the list l placed by a code (rotation, then flip about the first), independent of the library
static VL placed(VL const& l, int code) { int n = int(l.size()), rot = (code >> 1) & 3, flip = code & 1; VL o(n); for (int j = 0; j < n; ++j) { int p = (j + rot) % n; if (flip) p = (n - p) % n; o[p] = l[j]; } return o; }
static bool same_entity(VL const& a, VL const& b) { int n = int(a.size()); for (int q = 0; q < n; ++q) for (int f = 0; f < (n > 2 ? 2 : 1); ++f) if (placed(b, 2 * q + f) == a) return true; return false; }
static VL row(VL const& a, int n, int i) { return VL(a.begin() + i * n, a.begin() + (i + 1) * n); }
static void down(std::string const& nm, Adj d, VL const& hv, VL const& lv, Omega_h_Family f, int hd, int ld, std::string const& in) {
  int nh = element_degree(f, hd, 0), nl = ld ? element_degree(f, ld, 0) : 1, nlh = element_degree(f, hd, ld), H = int(hv.size()) / nh; auto e = vec(d.ab2b); auto c = vec(d.codes); bool ok = LO(e.size()) == H * nlh && (ld == 0 || c.size() == e.size()); std::ostringstream w;
  for (int h = 0; ok && h < H; ++h) for (int u = 0; ok && u < nlh; ++u) { int x = h * nlh + u; VL use(nl); for (int v = 0; v < nl; ++v) use[v] = hv[h * nh + (ld ? element_down_template(f, hd, ld, u, v) : u)];
    if (ld == 0) ok = e[x] == use[0]; else ok = e[x] >= 0 && e[x] < LO(lv.size()) / nl && ((c[x] >> 1) & 3) < nl && !(nl == 2 && (c[x] & 1)) && (c[x] >> 3) == 0 && placed(row(lv, nl, e[x]), c[x]) == use;
    if (!ok) w << " at " << h << "," << u; }
  REQUIRE(ok, nm, in << " hd=" << hd << " ld=" << ld << S(lv) << S(e) << S(c) << w.str());
}
static void up(std::string const& nm, Adj u, Adj d, int per, int nlow, std::string const& in) {
  auto off = vec(u.a2ab), e = vec(u.ab2b); auto c = vec(u.codes); auto de = vec(d.ab2b); auto dc = d.codes.exists() ? vec(d.codes) : vector<I8>(de.size(), 0); bool ok = LO(off.size()) == nlow + 1 && off[0] == 0 && off[nlow] == LO(de.size()) && e.size() == de.size() && c.size() == de.size();
  std::set<std::pair<int, int>> seen;
  for (int l = 0; ok && l < nlow; ++l) for (int x = off[l]; ok && x < off[l + 1]; ++x) { int w = c[x] >> 3; ok = e[x] >= 0 && e[x] * per + w < LO(de.size()) && w >= 0 && w < per && de[e[x] * per + w] == l && (c[x] & 7) == (dc[e[x] * per + w] & 7) && seen.insert({e[x], w}).second && (x == off[l] || e[x - 1] <= e[x]); }
  REQUIRE(ok, nm, in << " per=" << per << S(off) << S(e) << S(c) << S(de));
}
static void one(Rng& r) {
  auto fam = r.coin() ? OMEGA_H_SIMPLEX : OMEGA_H_HYPERCUBE; int dim = r(2, 3), nh = element_degree(fam, dim, 0), nv = nh + r(0, 4), H = r(0, 4) ? r(1, 6) : r(0, 30); bool big = H > 10; if (big) nv = nh + r(8, 30);
  VL ev; for (int i = 0; i < H; ++i) { VL p(nv); std::iota(p.begin(), p.end(), 0); for (int j = nv - 1; j > 0; --j) std::swap(p[j], p[r(0, j)]); ev.insert(ev.end(), p.begin(), p.begin() + nh); }
  std::ostringstream o; o << (fam == OMEGA_H_SIMPLEX ? "simplex" : "hypercube") << " dim=" << dim << " nv=" << nv << S(ev); auto in = o.str(); begin_case();
  VL lists[4]; lists[dim] = ev; Adj downs[4][4], ups[4][4];
  for (int ld = 1; ld < dim; ++ld) {
    int nl = element_degree(fam, ld, 0), nlh = element_degree(fam, dim, ld); auto uses = vec(form_uses(arr(ev), fam, dim, ld)); VL x; for (int h = 0; h < H; ++h) for (int u = 0; u < nlh; ++u) for (int v = 0; v < nl; ++v) x.push_back(ev[h * nh + element_down_template(fam, dim, ld, u, v)]);
    REQUIRE(uses == x, "form_uses", in << S(uses) << S(x));
    auto cc = vec(get_codes_to_canonical(nl, arr(uses))); { bool ok = cc.size() * nl == uses.size(); for (size_t i = 0; ok && i < cc.size(); ++i) { auto p = placed(row(uses, nl, int(i)), cc[i]); ok = p[0] == *std::min_element(p.begin(), p.end()) && (nl < 3 || p[1] < p[nl - 1]); } REQUIRE(ok, "get_codes_to_canonical", in << S(uses) << S(cc)); }
    auto q = vec(find_unique(arr(ev), fam, dim, ld)); int n = int(q.size()) / nl; bool ok = q.size() % nl == 0;
    for (int i = 0; ok && i < n; ++i) for (int j = 0; ok && j < i; ++j) ok = !same_entity(row(q, nl, i), row(q, nl, j));
    REQUIRE(ok, "find_unique lists an entity twice", in << " ld=" << ld << S(q));
    ok = true; for (size_t i = 0; ok && i < uses.size() / nl; ++i) { bool f = false; for (int j = 0; j < n && !f; ++j) f = same_entity(row(uses, nl, int(i)), row(q, nl, j)); ok = f; } for (int j = 0; ok && j < n; ++j) { bool f = false; for (size_t i = 0; i < uses.size() / nl && !f; ++i) f = row(uses, nl, int(i)) == row(q, nl, j); ok = f; }
    REQUIRE(ok, "find_unique: entities are exactly the uses", in << " ld=" << ld << S(q));
    // any numbering and any stored orientation of the low entities
    VL p(n); std::iota(p.begin(), p.end(), 0); for (int j = n - 1; j > 0; --j) std::swap(p[j], p[r(0, j)]); VL lv; for (int j = 0; j < n; ++j) { auto t = placed(row(q, nl, p[j]), 2 * r(0, nl - 1) + (nl > 2 ? r(0, 1) : 0)); lv.insert(lv.end(), t.begin(), t.end()); } lists[ld] = lv;
  }
  for (int hd = 1; hd <= dim; ++hd) { downs[hd][0] = Adj(arr(lists[hd])); ups[0][hd] = invert_adj(downs[hd][0], element_degree(fam, hd, 0), nv, hd, 0); up("invert_adj to vertices", ups[0][hd], downs[hd][0], element_degree(fam, hd, 0), nv, in); }
  for (int hd = 2; hd <= dim; ++hd) for (int ld = 1; ld < hd; ++ld) {
    int nl = element_degree(fam, ld, 0), nlow = int(lists[ld].size()) / nl; auto d = reflect_down(arr(lists[hd]), arr(lists[ld]), fam, nv, hd, ld); down("reflect_down", d, lists[hd], lists[ld], fam, hd, ld, in); downs[hd][ld] = d;
    ups[ld][hd] = invert_adj(d, element_degree(fam, hd, ld), nlow, hd, ld); up("invert_adj", ups[ld][hd], d, element_degree(fam, hd, ld), nlow, in);
    if (!g_fails && H) { Write<LO> a2b; Write<I8> cs; auto uses = form_uses(arr(lists[hd]), fam, hd, ld); LOs fv = get_component(uses, nl, 0); find_matches_ex(nl, fv, Read<LO>(uses), Read<LO>(arr(lists[ld])), ups[0][ld], &a2b, &cs, true); down("find_matches_ex, duplicates allowed", Adj(LOs(a2b), Read<I8>(cs)), lists[hd], lists[ld], fam, hd, ld, in); }
  }
  if (g_fails) return;
  for (int hd = 2; hd <= dim; ++hd) for (int ld = 0; ld < hd - 1; ++ld) down("transit", transit(downs[hd][ld + 1], downs[ld + 1][ld], fam, hd, ld), lists[hd], ld ? lists[ld] : VL(), fam, hd, ld, in);
  { auto g = verts_across_edges(downs[1][0], ups[0][1]); auto off = vec(g.a2ab), e = vec(g.ab2b), uo = vec(ups[0][1].a2ab), ue = vec(ups[0][1].ab2b); bool ok = off == uo && e.size() == ue.size(); for (int v = 0; ok && v < nv; ++v) for (int x = off[v]; ok && x < off[v + 1]; ++x) { auto l = row(lists[1], 2, ue[x]); ok = e[x] == (l[0] == v ? l[1] : l[0]) && (l[0] == v || l[1] == v); } REQUIRE(ok, "verts_across_edges", in << S(off) << S(e)); }
  int ne = int(lists[1].size()) / 2;
  auto dv = [&](Adj a) { return vec(a.ab2b); };
  if (fam == OMEGA_H_SIMPLEX) {
    auto g = edges_across_tris(downs[2][1], ups[1][2]); auto off = vec(g.a2ab), e = vec(g.ab2b), uo = vec(ups[1][2].a2ab), ue = vec(ups[1][2].ab2b), d = dv(downs[2][1]); bool ok = LO(off.size()) == ne + 1; for (int i = 0; ok && i <= ne; ++i) ok = off[i] == 2 * uo[i]; ok = ok && LO(e.size()) == 2 * uo[ne];
    for (int i = 0; ok && i < ne; ++i) for (int x = uo[i]; ok && x < uo[i + 1]; ++x) { auto t = row(d, 3, ue[x]); int w = int(std::find(t.begin(), t.end(), i) - t.begin()); ok = w < 3 && e[2 * x] == t[(w + 1) % 3] && e[2 * x + 1] == t[(w + 2) % 3]; } REQUIRE(ok, "edges_across_tris", in << S(off) << S(e));
    if (dim == 3) { auto g3 = edges_across_tets(downs[3][1], ups[1][3]); auto o3 = vec(g3.a2ab), e3 = vec(g3.ab2b), u3 = vec(ups[1][3].a2ab), ue3 = vec(ups[1][3].ab2b); bool k = o3 == u3 && e3.size() == ue3.size(); for (int i = 0; k && i < ne; ++i) for (int x = o3[i]; k && x < o3[i + 1]; ++x) { auto t = row(dv(downs[3][1]), 6, ue3[x]); auto a = row(lists[1], 2, i), b = row(lists[1], 2, e3[x]); k = std::count(t.begin(), t.end(), e3[x]) == 1 && a[0] != b[0] && a[0] != b[1] && a[1] != b[0] && a[1] != b[1]; } REQUIRE(k, "edges_across_tets", in << S(o3) << S(e3)); }
    auto so = vec(ups[dim - 1][dim].a2ab), se = vec(ups[dim - 1][dim].ab2b), sd = dv(downs[dim][dim - 1]); vector<I8> ex; for (size_t i = 0; i + 1 < so.size(); ++i) ex.push_back(so[i + 1] - so[i] != 2 || !r(0, 5)); auto a = elements_across_sides(dim, downs[dim][dim - 1], ups[dim - 1][dim], arr(ex)); auto ao = vec(a.a2ab), ae = vec(a.ab2b); VL xo(1, 0), xe;
    for (int i = 0; i < H; ++i) { for (int s = 0; s <= dim; ++s) { int q = sd[i * (dim + 1) + s]; if (!ex[q]) xe.push_back(se[so[q]] == i ? se[so[q] + 1] : se[so[q]]); } xo.push_back(LO(xe.size())); } REQUIRE(ao == xo && ae == xe, "elements_across_sides", in << S(ex) << S(ao) << S(ae) << S(xo) << S(xe));
  }
  { auto u = ups[0][dim]; int m = r(0, 5); VL k(m); for (auto& v : k) v = r(0, nv - 1); auto t = unmap_adjacency(arr(k), u); auto uo = vec(u.a2ab), ue = vec(u.ab2b); auto uc = vec(u.codes); VL xo(1, 0), xe; vector<I8> xc; for (auto v : k) { for (int x = uo[v]; x < uo[v + 1]; ++x) { xe.push_back(ue[x]); xc.push_back(uc[x]); } xo.push_back(LO(xe.size())); } REQUIRE(vec(t.a2ab) == xo && vec(t.ab2b) == xe && vec(t.codes) == xc, "unmap_adjacency", in << S(k)); }
}
int main(int argc, char** argv) {
  setup(argc, argv); oh::Library lib(nullptr, nullptr); int N = g_thorough ? 20000 : 1500;
  for (int t = 0; t < N && !g_fails; ++t) { Rng r(g_seed * 1000003 + t); one(r); }
  return finish();
}
