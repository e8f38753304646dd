#include "meshes.hpp"
#include <Omega_h_amr.hpp>
#include <Omega_h_amr_topology.hpp>
#include <Omega_h_amr_transfer.hpp>
#include <Omega_h_hypercube.hpp>
#include <Omega_h_adapt.hpp>
#include <cmath>
using namespace Omega_h; using std::vector;
#define S(x) " " #x "=" << str(x)
using Pt = std::array<int, 3>;
static int const REF[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
static int binom(int n, int k) { int r = 1; for (int i = 0; i < k; ++i) r = r * (n - i) / (i + 1); return r; }
static Pt node(int d, int b, int i) { Pt p{{0, 0, 0}}; int n = 1 << b; for (int v = 0; v < n; ++v) { int w = b == d ? v : hypercube_down_template(d, b, i, v); if (w < 0 || w >= (1 << d)) return Pt{{-9, -9, -9}}; for (int a = 0; a < 3; ++a) p[a] += 2 * REF[w][a]; } for (auto& x : p) x /= n; return p; }
static void tables() {
  for (int w = 0; w < 32; ++w) for (int d = 0; d < 4; ++d) { begin_case(); auto c = amr::make_code(w, d); REQUIRE(amr::code_which_child(c) == w && amr::code_parent_dim(c) == d, "child codes", "which=" << w << " parent dimension=" << d); }
  for (int d = 1; d <= 3; ++d) for (int c = 0; c <= d; ++c) {
    begin_case(); int n = hypercube_split_degree(d, c); REQUIRE(n == binom(d, c) * (1 << c), "number of children", "parent dimension=" << d << " child dimension=" << c << " n=" << n); if (n != binom(d, c) * (1 << c)) continue; std::set<std::set<Pt>> seen;
    for (int i = 0; i < n; ++i) { vector<Pt> P; bool ok = true; for (int v = 0; v < (1 << c); ++v) { auto s = hypercube_split_template(d, c, i, v); ok = ok && s.dim >= 0 && s.dim <= d && s.which_down >= 0 && s.which_down < hypercube_degree(d, s.dim); if (!ok) break; P.push_back(node(d, s.dim, s.which_down)); }
      if (ok) { int ax[3] = {1, 3, 4}; Pt A[3]; for (int j = 0; j < c; ++j) for (int a = 0; a < 3; ++a) A[j][a] = P[ax[j]][a] - P[0][a];
        for (int v = 0; v < (1 << c); ++v) for (int a = 0; a < 3; ++a) { int x = P[0][a]; for (int j = 0; j < c; ++j) x += REF[v][j] * A[j][a]; ok = ok && x == P[v][a]; }
        for (int j = 0; j < c; ++j) { int s = 0; for (int a = 0; a < 3; ++a) s += A[j][a] * A[j][a]; ok = ok && s == 1; for (int k = 0; k < j; ++k) { int t = 0; for (int a = 0; a < 3; ++a) t += A[j][a] * A[k][a]; ok = ok && t == 0; } }
        if (c == 3) ok = ok && A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]) == 1;
        if (c == 2 && d == 2) ok = ok && A[0][0] * A[1][1] - A[0][1] * A[1][0] == 1; if (c == 1 && d == 1) ok = ok && A[0][0] == 1;
        for (int a = 0; a < d; ++a) { bool mid = true, two = false; for (auto& p : P) { mid = mid && p[a] == 1; two = two || p[a] != P[0][a]; } ok = ok && (mid || two); }
        bool dual = false; for (int v = 0; v < (1 << c); ++v) { auto s = hypercube_split_template(d, c, i, v); dual = dual || (s.dim == d - c && s.which_down == i); } ok = ok && dual;
        seen.insert(std::set<Pt>(P.begin(), P.end())); }
      REQUIRE(ok, "a child is a unit cube inside its parent, oriented like it", "parent dimension=" << d << " child dimension=" << c << " child=" << i); }
    REQUIRE(int(seen.size()) == n, "children are different", "parent dimension=" << d << " child dimension=" << c); }
}
static void check_children(LO np, int pd, vector<LO> const& pi, vector<I8> const& cd, Children const& ch, std::function<std::string()> in, char const* what) {
  vector<vector<LO>> want(np); for (size_t c = 0; c < pi.size(); ++c) if (pi[c] >= 0 && (cd[c] & 3) == pd) want[pi[c]].push_back(LO(c)); auto off = vec(ch.a2ab), l = vec(ch.ab2b); auto k = vec(ch.codes); vector<LO> wo{0}, wl; vector<I8> wk; for (auto& v : want) { for (auto c : v) { wl.push_back(c); wk.push_back(cd[c]); } wo.push_back(LO(wl.size())); }
  REQUIRE(off == wo && l == wl && k == wk, what, in() << S(pi) << S(cd) << S(off) << S(l) << S(k));
}
static void inverse(Rng& r) {
  begin_case(); int n = r(0, 20), np = r(1, 6), pd = r(1, 3); vector<LO> pi; vector<I8> cd; for (int i = 0; i < n; ++i) { int m = r(0, 3); if (!m) { pi.push_back(-1); cd.push_back(0); } else { pi.push_back(r(0, m == pd ? np - 1 : 99)); cd.push_back(amr::make_code(r(0, 11), m)); } }
  check_children(np, pd, pi, cd, invert_parents(Parents(arr(pi), Read<I8>(arr(cd))), pd, np), [&] { std::ostringstream o; o << "parent dimension=" << pd << " parents=" << np; return o.str(); }, "children lists are the inverse of the parent references, in order");
}
static void run(oh::Library* lib, Rng& r) {
  begin_case(); int D = r(1, 3); MeshSpec sp; sp.fam = OMEGA_H_HYPERCUBE; sp.dim = D; sp.nx = r(1, 3); sp.ny = D > 1 ? r(1, 2) : 0; sp.nz = D > 2 ? r(1, 2) : 0; if (D == 1) return;
  auto m = make_mesh(lib, sp); std::ostringstream hist; hist << sp.str();
  for (int lvl = 0; lvl < (D == 2 ? 3 : 2); ++lvl) {
    auto leaf = vec(m.ask_leaves(D)); vector<I8> mk(m.nelems(), 0); for (size_t i = 0; i < mk.size(); ++i) mk[i] = I8(leaf[i] && r(0, 2) == 0); hist << " marks=" << str(mk);
    auto mk2 = vec(amr::enforce_2to1_refine(&m, D - 1, Read<I8>(arr(mk)))); auto co = vec(m.coords()); auto in = [&] { return hist.str(); };
    vector<std::map<vector<long>, LO>> old(D + 1); auto old_centre = [&](Mesh& q, int d, LO e, vector<Real> const& x) { auto v = d ? vec(q.ask_verts_of(d)) : vector<LO>(); vector<long> c(D, 0); int n = 1 << d; for (int j = 0; j < n; ++j) for (int a = 0; a < D; ++a) c[a] += std::lround(x[(d ? v[e * n + j] : e) * D + a] * 768 * 64 / n); return c; };
    vector<vector<std::set<vector<long>>>> dummy; int nl0 = m.nelems(); (void)nl0; auto parents_before = vector<std::map<std::pair<vector<long>, vector<long>>, std::pair<int, int>>>(D + 1);
    auto key = [&](Mesh& q, int d, vector<Real> const& x) { vector<vector<long>> lo(q.nents(d)), hi(q.nents(d)); auto v = d ? vec(q.ask_verts_of(d)) : vector<LO>(); int n = 1 << d; for (LO e = 0; e < q.nents(d); ++e) { vector<long> a(D, 1L << 40), b(D, -(1L << 40)); for (int j = 0; j < n; ++j) for (int k = 0; k < D; ++k) { long z = std::lround(x[(d ? v[e * n + j] : e) * D + k] * 12 * 64); a[k] = std::min(a[k], z); b[k] = std::max(b[k], z); } lo[e] = a; hi[e] = b; } return std::make_pair(lo, hi); };
    vector<std::map<std::pair<vector<long>, vector<long>>, LO>> who(D + 1); for (int d = 0; d <= D; ++d) { auto k = key(m, d, co); for (LO e = 0; e < m.nents(d); ++e) who[d][{k.first[e], k.second[e]}] = e; }
    // parent references of the old mesh, as geometry
    vector<std::map<std::pair<vector<long>, vector<long>>, std::pair<int, std::pair<vector<long>, vector<long>>>>> had(D + 1); vector<std::pair<vector<vector<long>>, vector<vector<long>>>> ok_(D + 1); for (int d = 0; d <= D; ++d) ok_[d] = key(m, d, co);
    for (int d = 0; d <= D; ++d) { auto p = m.ask_parents(d); for (LO e = 0; e < m.nents(d); ++e) { LO q = p.parent_idx.get(e); int c = p.codes.get(e); if (q >= 0) had[d][{ok_[d].first[e], ok_[d].second[e]}] = {c, {ok_[c & 3].first[q], ok_[c & 3].second[q]}}; } }
    auto leafs = vector<vector<I8>>(D + 1); for (int d = 0; d <= D; ++d) leafs[d] = vec(m.ask_leaves(d)); vector<std::set<LO>> split(D + 1); for (int d = 1; d <= D; ++d) { auto dn = d < D ? vec(m.ask_down(D, d).ab2b) : vector<LO>(); int n = d < D ? hypercube_degree(D, d) : 1; for (LO e = 0; e < m.nelems(); ++e) if (mk2[e]) for (int j = 0; j < n; ++j) { LO x = d < D ? dn[e * n + j] : e; if (leafs[d][x]) split[d].insert(x); } }
    int before[4]; for (int d = 0; d <= D; ++d) before[d] = m.nents(d);
    amr::refine(&m, Read<I8>(arr(mk2)), TransferOpts()); auto x = vec(m.coords());
    vector<std::pair<vector<vector<long>>, vector<vector<long>>>> nk(D + 1); for (int d = 0; d <= D; ++d) nk[d] = key(m, d, x);
    for (int d = 0; d <= D; ++d) { long want = before[d]; for (int p = std::max(1, d); p <= D; ++p) want += long(split[p].size()) * binom(p, d) * (1 << d); REQUIRE(m.nents(d) == want, "refined mesh: number of entities", in() << " dimension=" << d << " have=" << m.nents(d) << " want=" << want);
      auto P = m.ask_parents(d); auto pi = vec(P.parent_idx); auto cd = vec(P.codes); std::map<std::pair<int, LO>, std::set<int>> slots;
      for (LO e = 0; e < m.nents(d); ++e) { auto k = std::make_pair(nk[d].first[e], nk[d].second[e]); bool was = who[d].count(k); LO q = pi[e]; int c = cd[e]; bool good = true; std::ostringstream why;
        if (was) { auto h = had[d].find(k); if (h == had[d].end()) good = q == -1; else good = c == h->second.first && q >= 0 && q < m.nents(c & 3) && std::make_pair(nk[c & 3].first[q], nk[c & 3].second[q]) == h->second.second; }
        else { int p = c & 3, w = c >> 2; good = p >= std::max(1, d) && p <= D && q >= 0 && q < m.nents(p) && w >= 0 && w < hypercube_split_degree(p, d); if (good) { auto pk = std::make_pair(nk[p].first[q], nk[p].second[q]); auto it = who[p].find(pk); good = it != who[p].end() && split[p].count(it->second) && slots[{p, q}].insert(w).second;
            // the vertices of the child are the middles of the sides the table names
            auto pv = vec(m.ask_verts_of(p)); auto cv = d ? vec(m.ask_verts_of(d)) : vector<LO>(); for (int v = 0; good && v < (1 << d); ++v) { auto s = hypercube_split_template(p, d, w, v); int n = 1 << s.dim; for (int a = 0; a < D; ++a) { Real t = 0; for (int j = 0; j < n; ++j) t += x[pv[q * (1 << p) + (s.dim == p ? j : hypercube_down_template(p, s.dim, s.which_down, j))] * D + a] / n; good = good && std::fabs(t - x[(d ? cv[e * (1 << d) + v] : e) * D + a]) < 1e-9; } } } }
        REQUIRE(good, "refined mesh: parent, place in the parent and vertices of an entity", in() << " dimension=" << d << " entity=" << e << " parent=" << q << " code=" << c << " old=" << was); if (!good) return; }
      for (int p = std::max(1, d); p <= D; ++p) check_children(m.nents(p), p, pi, cd, m.ask_children(p, d), in, "refined mesh: children lists"); }
  }
}
// the old mesh renumbered by arbitrary permutations, nothing refined: parents follow their entities
static void renumber(oh::Library* lib, Rng& r) {
  MeshSpec sp; sp.fam = OMEGA_H_HYPERCUBE; sp.dim = r(2, 3); sp.nx = r(1, 2); sp.ny = r(1, 2); sp.nz = sp.dim > 2 ? 1 : 0; auto m = make_mesh(lib, sp);
  for (int l = 0; l < (sp.dim == 2 ? 2 : 1); ++l) { vector<I8> mk(m.nelems(), 0); auto leaf = vec(m.ask_leaves(sp.dim)); for (size_t i = 0; i < mk.size(); ++i) mk[i] = I8(leaf[i] && r(0, 1)); auto mk2 = amr::enforce_2to1_refine(&m, sp.dim - 1, Read<I8>(arr(mk))); amr::refine(&m, mk2, TransferOpts()); }
  begin_case(); auto m2 = m; Few<LOs, 4> none, p2n, s2o, s2n, o2n; vector<vector<LO>> pos(4); for (int d = 0; d < 4; ++d) { none[d] = p2n[d] = LOs(arr(vector<LO>())); if (d > sp.dim) { s2o[d] = s2n[d] = o2n[d] = none[d]; continue; }
    LO n = m.nents(d); auto perm = [&] { vector<LO> p(n); for (LO i = 0; i < n; ++i) p[i] = i; for (LO i = n - 1; i > 0; --i) std::swap(p[i], p[r(0, i)]); return p; }; auto a = perm(), b = perm(); pos[d].resize(n); for (LO i = 0; i < n; ++i) pos[d][a[i]] = b[i]; s2o[d] = arr(a); s2n[d] = arr(b); o2n[d] = arr(pos[d]); }
  amr::transfer_parents(&m, &m2, none, p2n, s2o, s2n, o2n);
  for (int d = 0; d <= sp.dim; ++d) { auto a = m.ask_parents(d), b = m2.ask_parents(d); for (LO i = 0; i < m.nents(d); ++i) { LO q = a.parent_idx.get(i), h = b.parent_idx.get(pos[d][i]); int c = a.codes.get(i), k = b.codes.get(pos[d][i]); LO want = q < 0 ? q : pos[c & 3][q]; REQUIRE(h == want && k == c, "renumbered entity keeps its parent and place", sp.str() << " dimension=" << d << " old=" << i << " new=" << pos[d][i] << " have=" << h << "/" << k << " want=" << want << "/" << c); if (h != want || k != c) return; } }
}
// children lists follow the parents the mesh has now
static void replaced(oh::Library* lib, Rng& r) {
  MeshSpec sp; sp.fam = OMEGA_H_HYPERCUBE; sp.dim = r(2, 3); sp.nx = r(1, 2); sp.ny = r(1, 2); sp.nz = sp.dim > 2 ? 1 : 0; auto m = make_mesh(lib, sp); amr::refine(&m, Bytes(m.nelems(), 1), TransferOpts());
  for (int round = 0; round < 3; ++round) for (int c = 0; c <= sp.dim; ++c) { begin_case(); vector<LO> pi; vector<I8> cd; for (LO i = 0; i < m.nents(c); ++i) { int d = r(std::max(1, c) - 1, sp.dim); if (d < std::max(1, c)) { pi.push_back(-1); cd.push_back(0); } else { pi.push_back(r(0, m.nents(d) - 1)); cd.push_back(amr::make_code(r(0, 11), d)); } }
    m.set_parents(c, Parents(arr(pi), Read<I8>(arr(cd)))); for (int p = std::max(1, c); p <= sp.dim; ++p) check_children(m.nents(p), p, pi, cd, m.ask_children(p, c), [&] { return sp.str() + " parents set again, dimension=" + std::to_string(c); }, "children lists belong to the parents set last"); }
}
int main(int argc, char** argv) {
  setup(argc, argv); oh::Library lib(nullptr, nullptr); tables(); int Nn = g_thorough ? 300 : 25;
  for (int t = 0; t < 40 * Nn; ++t) { Rng r(g_seed * 1000003 + t); inverse(r); } for (int t = 0; t < Nn; ++t) { Rng r(g_seed * 77003 + t); run(&lib, r); renumber(&lib, r); replaced(&lib, r); }
  return finish();
}
