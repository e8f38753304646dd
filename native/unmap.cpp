#include "meshes.hpp"
#include <Omega_h_amr.hpp>
#include <Omega_h_adapt.hpp>
#include <Omega_h_unmap_mesh.hpp>
#include <Omega_h_hypercube.hpp>
using namespace Omega_h; using std::vector;
#define S(x) " " #x "=" << str(x)
template <class T> static vector<T> rand_tag(Rng& r, int n) { vector<T> v(n); for (auto& x : v) x = rand_val<T>(r); return v; }
template <class T> static vector<long double> vals(Mesh& m, int d, std::string const& nm) { auto v = vec(m.get_array<T>(d, nm)); return vector<long double>(v.begin(), v.end()); }
struct TagV { int type, nc; vector<long double> v; };
static std::map<std::string, TagV> tags_of(Mesh& m, int d) { std::map<std::string, TagV> t; for (int i = 0; i < m.ntags(d); ++i) { auto g = m.get_tag(d, i); TagV x; x.type = g->type(); x.nc = g->ncomps(); x.v = x.type == OMEGA_H_I8 ? vals<I8>(m, d, g->name()) : x.type == OMEGA_H_I32 ? vals<I32>(m, d, g->name()) : x.type == OMEGA_H_I64 ? vals<I64>(m, d, g->name()) : vals<Real>(m, d, g->name()); t[g->name()] = x; } return t; }
struct Copy { vector<vector<LO>> down, verts; vector<vector<I8>> codes; vector<vector<LO>> par; vector<vector<I8>> pc, leaf; vector<std::map<std::string, TagV>> tags; vector<int> n; bool parents; };
static Copy copy_of(Mesh& m) { Copy c; int D = m.dim(); c.parents = m.has_any_parents(); for (int d = 0; d <= D; ++d) { c.n.push_back(m.nents(d)); if (d) { auto a = m.ask_down(d, d - 1); c.down.push_back(vec(a.ab2b)); c.codes.push_back(vec(a.codes)); c.verts.push_back(vec(m.ask_verts_of(d))); } else { c.down.push_back({}); c.codes.push_back({}); c.verts.push_back({}); } if (c.parents) { c.leaf.push_back(vec(m.ask_leaves(d))); auto p = m.ask_parents(d); c.par.push_back(vec(p.parent_idx)); c.pc.push_back(vec(p.codes)); } c.tags.push_back(tags_of(m, d)); } return c; }
static void check(Copy const& o, Mesh& m, vector<vector<LO>> const& n2o, std::function<std::string()> in, char const* what) {
  int D = m.dim(); bool ok = true; std::ostringstream why; vector<vector<LO>> inv(D + 1); for (int d = 0; d <= D; ++d) { inv[d].assign(o.n[d], -1); for (size_t i = 0; i < n2o[d].size(); ++i) inv[d][n2o[d][i]] = LO(i); }
  auto bad = [&](std::string const& s) { if (ok) { ok = false; why << s; } };
  for (int d = 0; d <= D && ok; ++d) { int n = int(n2o[d].size()); if (m.nents(d) != n) { bad("number of entities of dimension " + std::to_string(d)); break; } auto id = [&](char const* s, int i) { return std::string(s) + " of entity " + std::to_string(i) + " of dimension " + std::to_string(d); };
    if (d) { auto a = m.ask_down(d, d - 1); auto ab = vec(a.ab2b); auto cd = vec(a.codes); auto vs = vec(m.ask_verts_of(d)); int w = element_degree(m.family(), d, d - 1), wv = element_degree(m.family(), d, 0);
      if (int(ab.size()) != n * w || int(vs.size()) != n * wv || (d > 1) != a.codes.exists()) bad(id("lists", 0));
      for (int i = 0; i < n && ok; ++i) { for (int j = 0; j < w; ++j) { if (ab[i * w + j] != inv[d - 1][o.down[d][n2o[d][i] * w + j]]) bad(id("sides", i)); if (d > 1 && cd[i * w + j] != o.codes[d][n2o[d][i] * w + j]) bad(id("orientation codes", i)); } for (int j = 0; j < wv; ++j) if (vs[i * wv + j] != inv[0][o.verts[d][n2o[d][i] * wv + j]]) bad(id("vertices", i)); } }
    auto t = tags_of(m, d); for (auto& kv : o.tags[d]) { auto it = t.find(kv.first); if (it == t.end()) { bad(id(("missing tag " + kv.first).c_str(), 0)); continue; } auto& x = it->second; auto& y = kv.second; if (x.type != y.type || x.nc != y.nc) { bad(id(("type of tag " + kv.first).c_str(), 0)); continue; } if (kv.first == "leaf" && o.parents && d) continue; for (int i = 0; i < n && ok; ++i) for (int j = 0; j < y.nc; ++j) if (x.v[size_t(i) * y.nc + j] != y.v[size_t(n2o[d][i]) * y.nc + j]) bad(id(("tag " + kv.first).c_str(), i)); }
    if (!m.has_any_parents() && o.parents) bad("parents are lost");
    if (o.parents && m.has_any_parents() && ok) { auto p = m.ask_parents(d); auto pi = vec(p.parent_idx); auto pc = vec(p.codes); for (int i = 0; i < n && ok; ++i) { LO q = o.par[d][n2o[d][i]]; int c = o.pc[d][n2o[d][i]]; LO want = q < 0 ? -1 : inv[c & 3][q]; if (want < 0) c = 0; if (pi[i] != want || pc[i] != c) bad(id("parent", i)); } } }
  if (ok && o.parents) for (int d = 1; d <= D && ok; ++d) { vector<int> kids(m.nents(d), 0); auto p = m.ask_parents(d); auto pi = vec(p.parent_idx); auto pc = vec(p.codes); for (size_t i = 0; i < pi.size(); ++i) if (pi[i] >= 0 && (pc[i] & 3) == d) ++kids[pi[i]]; auto lf = vec(m.ask_leaves(d)); for (int i = 0; i < m.nents(d); ++i) if (lf[i] != (kids[i] ? o.leaf[d][n2o[d][i]] : 1)) { bad("leaf mark of entity " + std::to_string(i) + " of dimension " + std::to_string(d)); break; }
    for (int e = 1; e <= d && ok; ++e) { auto k = m.ask_children(d, e); auto off = vec(k.a2ab), l = vec(k.ab2b); auto q = m.ask_parents(e); auto qi = vec(q.parent_idx); auto qc = vec(q.codes); size_t at = 0; for (int i = 0; i < m.nents(d) && ok; ++i) { vector<LO> want; for (size_t j = 0; j < qi.size(); ++j) if (qi[j] == i && (qc[j] & 3) == d) want.push_back(LO(j)); if (off[i] != LO(at) || vector<LO>(l.begin() + off[i], l.begin() + off[i + 1]) != want) bad("children lists"); at += want.size(); } } }
  REQUIRE(ok, what, in() << " wrong: " << why.str());
}
static void one(oh::Library* lib, Rng& r) {
  auto sp = rand_spec(r); auto m = sp.fam == OMEGA_H_SIMPLEX && r.coin() ? rough_mesh(lib, sp, r) : make_mesh(lib, sp); int D = m.dim(); std::ostringstream hist; hist << sp.str() << " elements=" << m.nelems();
  if (sp.fam == OMEGA_H_HYPERCUBE) for (int lvl = r(0, D == 2 ? 3 : 2); lvl > 0; --lvl) { auto leaf = vec(m.ask_leaves(D)); vector<I8> mk(m.nelems(), 0); for (size_t i = 0; i < mk.size(); ++i) mk[i] = I8(leaf[i] && r(0, 2) == 0); auto mk2 = amr::enforce_2to1_refine(&m, D - 1, Read<I8>(arr(mk))); hist << " refine=" << str(vec(mk2)); amr::refine(&m, mk2, TransferOpts()); }
  for (int d = 0; d <= D; ++d) for (int t = r(0, 5); t > 0; --t) { auto nm = "tag" + std::to_string(t); int nc = r(1, 5), n = m.nents(d) * nc; switch (r(0, 3)) { case 0: m.add_tag<I8>(d, nm, nc, Read<I8>(arr(rand_tag<I8>(r, n)))); break; case 1: m.add_tag<I32>(d, nm, nc, Read<I32>(arr(rand_tag<I32>(r, n)))); break; case 2: m.add_tag<I64>(d, nm, nc, Read<I64>(arr(rand_tag<I64>(r, n)))); break; default: m.add_tag<Real>(d, nm, nc, Reals(arr(rand_tag<Real>(r, n)))); } }
  if (r(0, 2) == 0) for (int d = 1; d <= D; ++d) m.ask_down(D, d - 1);      // with and without derived relations in the cache
  auto o = copy_of(m); vector<vector<I8>> keep(D + 1); keep[D].assign(m.nelems(), 0); int mode = r(0, 4); for (auto& x : keep[D]) x = I8(mode == 0 || r(0, mode == 1 ? 5 : 2) != 0); if (!std::count(keep[D].begin(), keep[D].end(), 1)) keep[D][r(0, int(keep[D].size()) - 1)] = 1; for (int d = 0; d < D; ++d) { keep[d].assign(m.nents(d), 0); for (auto& x : keep[d]) x = I8(mode == 0 || r(0, 9) == 0); }
  for (int d = D; d > 0; --d) { int w = element_degree(m.family(), d, d - 1); for (size_t i = 0; i < keep[d].size(); ++i) if (keep[d][i]) for (int j = 0; j < w; ++j) keep[d - 1][o.down[d][i * w + j]] = 1; }
  vector<vector<LO>> n2o(D + 1); LOs a[4]; for (int d = 0; d <= D; ++d) { for (size_t i = 0; i < keep[d].size(); ++i) if (keep[d][i]) n2o[d].push_back(LO(i)); if (r(0, 2)) for (int i = int(n2o[d].size()) - 1; i > 0; --i) std::swap(n2o[d][i], n2o[d][r(0, i)]); a[d] = LOs(arr(n2o[d])); hist << " keep" << d << "=" << str(n2o[d]); }
  begin_case(); auto fam = m.family(); unmap_mesh(&m, a); REQUIRE(m.dim() == D && m.family() == fam, "extracted mesh: dimension and family", hist.str()); check(o, m, n2o, [&] { return hist.str(); }, "extracted mesh: kept entities keep connectivity, codes, tags and parents");
}
// adaptive refinement, undone in places, and refined again: every vertex in the middle of an entity that is refined is found again
static void again(oh::Library* lib, Rng& r) {
  MeshSpec sp; sp.fam = OMEGA_H_HYPERCUBE; sp.dim = r(2, 3); sp.nx = r(1, 3); sp.ny = r(1, 2); sp.nz = sp.dim > 2 ? r(1, 2) : 0; auto m = make_mesh(lib, sp); int D = sp.dim; std::ostringstream hist; hist << sp.str(); begin_case();
  for (int step = 0; step < (D == 2 ? 4 : 3); ++step) {
    auto leaf = vec(m.ask_leaves(D)); vector<I8> mk(m.nelems(), 0);
    if (step % 2 == 0) { for (size_t i = 0; i < mk.size(); ++i) mk[i] = I8(leaf[i] && r(0, 1)); auto m2 = amr::enforce_2to1_refine(&m, D - 1, Read<I8>(arr(mk))); hist << " refine=" << str(vec(m2)); amr::refine(&m, m2, TransferOpts()); }
    else { auto k = m.ask_children(D, D); auto off = vec(k.a2ab), l = vec(k.ab2b); for (size_t i = 0; i < mk.size(); ++i) { bool ok = off[i + 1] > off[i]; for (LO j = off[i]; j < off[i + 1]; ++j) ok = ok && leaf[l[j]]; mk[i] = I8(ok && r(0, 1)); } hist << " derefine=" << str(mk); amr::derefine(&m, Read<I8>(arr(mk)), TransferOpts()); }
    auto x = vec(m.coords()); for (int p = 1; p <= D; ++p) { auto k = m.ask_children(p, 0); auto off = vec(k.a2ab), l = vec(k.ab2b); auto kk = m.ask_children(p, p); auto o2 = vec(kk.a2ab); auto pv = vec(m.ask_verts_of(p)); int n = 1 << p; for (LO e = 0; e < m.nents(p); ++e) { bool split = o2[e + 1] > o2[e]; bool good = !split || off[e + 1] - off[e] == 1; for (LO j = off[e]; good && j < off[e + 1]; ++j) for (int a = 0; a < D; ++a) { Real t = 0; for (int v = 0; v < n; ++v) t += x[pv[e * n + v] * D + a] / n; good = std::fabs(t - x[l[j] * D + a]) < 1e-9; } REQUIRE(good, "a refined entity has one vertex, in its middle", hist.str() << " dimension=" << p << " entity=" << e << " vertices=" << off[e + 1] - off[e]); if (!good) return; } }
    std::set<vector<long>> pts; for (LO v = 0; v < m.nverts(); ++v) { vector<long> q; for (int a = 0; a < D; ++a) q.push_back(std::lround(x[v * D + a] * 768 * 16)); REQUIRE(pts.insert(q).second, "vertices are at different places", hist.str() << " vertex=" << v); }
  }
}
int main(int argc, char** argv) {
  setup(argc, argv); oh::Library lib(nullptr, nullptr); int Nn = g_thorough ? 2000 : 150;
  for (int t = 0; t < Nn; ++t) { Rng r(g_seed * 1000003 + t); one(&lib, r); } for (int t = 0; t < Nn / 5; ++t) { Rng r(g_seed * 77003 + t); again(&lib, r); }
  return finish();
}
