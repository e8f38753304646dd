#include "meshes.hpp"
#include <Omega_h_coarsen.hpp>
#include <Omega_h_collapse.hpp>
using namespace Omega_h; using std::vector;
#define S(x) " " #x "=" << str(x)
static int parity(vector<LO> a, vector<LO> const& b) { int sw = 0; for (size_t i = 0; i < a.size(); ++i) { if (a[i] == b[i]) continue; auto it = std::find(a.begin() + i, a.end(), b[i]); if (it == a.end()) return -1; std::iter_swap(a.begin() + i, it); ++sw; } return sw % 2; }
static void one(oh::Library* lib, Rng& r) {
  auto sp = rand_spec(r, false); auto m = r.coin() ? make_mesh(lib, sp) : rough_mesh(lib, sp, r); int D = m.dim(); int nv = m.nverts(), ne = m.nedges();
  m.set_parting(OMEGA_H_GHOSTED); auto ev = vec(m.ask_verts_of(EDGE)); m.add_tag<Real>(VERT, "metric", 1, Reals(nv, 1.0));
  vector<vector<vector<LO>>> ent(D + 1); vector<std::map<std::set<LO>, LO>> id(D + 1);
  for (int d = 0; d <= D; ++d) { auto a = d ? vec(m.ask_verts_of(d)) : vector<LO>(); for (int i = 0; i < m.nents(d); ++i) { ent[d].push_back(d ? vector<LO>(a.begin() + i * (d + 1), a.begin() + (i + 1) * (d + 1)) : vector<LO>{i}); id[d][std::set<LO>(ent[d][i].begin(), ent[d][i].end())] = i; } }
  for (int d = 0; d <= D; ++d) { vector<I8> c(m.nents(d)); for (auto& x : c) x = I8(r(0, 6) ? D : r(0, D)); if (m.has_tag(d, "class_dim")) m.set_tag(d, "class_dim", Read<I8>(arr(c))); else m.add_tag<I8>(d, "class_dim", 1, Read<I8>(arr(c))); }
  // candidate edges and what may collapse
  vector<LO> c2e; for (int e = 0; e < ne; ++e) if (r(0, 3)) c2e.push_back(e); vector<I8> codes; for (size_t i = 0; i < c2e.size(); ++i) codes.push_back(I8(r(1, 3))); begin_case();
  std::ostringstream in0; in0 << sp.str() << " elements=" << m.nelems() << S(c2e) << S(codes); auto in = [&] { return in0.str(); };
  vector<vector<I8>> cd(D + 1); for (int d = 0; d <= D; ++d) cd[d] = vec(m.get_array<I8>(d, "class_dim"));
  auto bits = [&](vector<I8> const& base, vector<I8> const& got, std::function<bool(size_t, int)> ok, char const* what) { bool good = got.size() == base.size(); for (size_t i = 0; good && i < got.size(); ++i) { I8 x = 0; for (int a = 0; a < 2; ++a) if ((base[i] >> a) & 1 && ok(i, a)) x = I8(x | (1 << a)); good = got[i] == x; } REQUIRE(good, what, in() << S(got)); };
  vector<I8> c0 = codes; for (auto& x : c0) x = I8(r(0, 3));
  bits(c0, vec(check_collapse_class(&m, arr(c2e), arr(c0))), [&](size_t i, int a) { return cd[0][ev[c2e[i] * 2 + a]] == cd[1][c2e[i]]; }, "collapse keeps the piece of the model the vertex lies on");
  bits(c0, vec(check_collapse_exposure(&m, arr(c2e), arr(c0))), [&](size_t i, int a) { LO col = ev[c2e[i] * 2 + a], onto = ev[c2e[i] * 2 + 1 - a]; for (int d = 2; d <= D; ++d) for (auto& kv : id[d]) if (kv.first.count(col) && kv.first.count(onto)) { auto s = kv.first; s.erase(onto); if (cd[d - 1][id[d - 1].at(s)] != cd[d][kv.second]) return false; } return true; }, "collapse exposes no entity of another model dimension");
  // the rail of every vertex
  vector<Real> q; for (size_t i = 0; i < 2 * codes.size(); ++i) q.push_back(r(0, 3) * 0.25); vector<Real> len; for (int e = 0; e < ne; ++e) len.push_back(r(1, 4) * 0.5); if (m.has_tag(EDGE, "length")) m.set_tag(EDGE, "length", Reals(arr(len))); else m.add_tag<Real>(EDGE, "length", 1, Reals(arr(len)));
  if (r.coin()) { vector<GO> w(ne); for (int e = 0; e < ne; ++e) w[e] = (GO(e) << (r.coin() ? 32 : 40)) + r(0, 1) * (GO(1) << 62) / 4; std::set<GO> u(w.begin(), w.end()); if (int(u.size()) == ne) { for (int i = ne - 1; i > 0; --i) std::swap(w[i], w[r(0, i)]); m.set_tag<GO>(EDGE, "global", Read<GO>(arr(w))); } }
  auto gl = vec(m.globals(EDGE)); Read<I8> vc; Reals vq; Read<GO> vr; choose_rails(&m, arr(c2e), arr(codes), Reals(arr(q)), &vc, &vq, &vr); auto VC = vec(vc); auto VQ = vec(vq); auto VR = vec(vr);
  vector<int> pick(nv, -1);
  for (int v = 0; v < nv; ++v) { Real bl = 1e9, bq = -1; for (size_t i = 0; i < c2e.size(); ++i) for (int a = 0; a < 2; ++a) if (ev[c2e[i] * 2 + a] == v && (codes[i] >> a) & 1) { Real l = len[c2e[i]], Q = q[2 * i + a]; if (l < bl || (l == bl && Q > bq)) { bl = l; bq = Q; } }
    bool any = bl < 1e8; bool good = (VC[v] != 0) == any; if (good && any) { good = false; for (size_t i = 0; i < c2e.size(); ++i) for (int a = 0; a < 2; ++a) if (ev[c2e[i] * 2 + a] == v && (codes[i] >> a) & 1 && gl[c2e[i]] == VR[v] && len[c2e[i]] == bl && q[2 * i + a] == bq && VQ[v] == bq) { good = true; pick[v] = c2e[i]; } }
    REQUIRE(good, "a vertex collapses along its shortest candidate edge, the best one among equals", in() << S(len) << S(q) << " vertex=" << v); if (!good) return; }
  // independent key vertices
  vector<LO> keys; vector<char> bad(nv, 0); vector<int> ord(nv); std::iota(ord.begin(), ord.end(), 0); for (int i = nv - 1; i > 0; --i) std::swap(ord[i], ord[r(0, i)]);
  for (auto v : ord) if (VC[v] && !bad[v] && r(0, 4)) { keys.push_back(v); for (auto& e : ent[1]) for (int a = 0; a < 2; ++a) if (e[a] == v) bad[e[1 - a]] = 1; bad[v] = 1; }
  if (r.coin()) std::sort(keys.begin(), keys.end());
  LOs r2e; Read<I8> rdir; find_rails(&m, arr(keys), vr, &r2e, &rdir); auto RE = vec(r2e); auto RD = vec(rdir); bool good = RE.size() == keys.size(); for (size_t k = 0; good && k < keys.size(); ++k) good = RE[k] == pick[keys[k]] && ev[RE[k] * 2 + RD[k]] == keys[k];
  REQUIRE(good, "the rail of a key is the edge it chose, directed from the key", in() << S(keys) << S(RE)); if (!good) return;
  auto onto = vec(get_verts_onto(&m, r2e, rdir)); good = onto.size() == keys.size(); for (size_t k = 0; good && k < keys.size(); ++k) good = onto[k] == ev[RE[k] * 2 + 1 - RD[k]]; REQUIRE(good, "the vertex a key merges with is the other end of its rail", in() << S(keys) << S(onto)); if (!good) return;
  auto dead = mark_dead_ents(&m, r2e, rdir);
  vector<LO> o2n(nv); std::iota(o2n.begin(), o2n.end(), 0); for (int i = nv - 1; i > 0; --i) std::swap(o2n[i], o2n[r(0, i)]);
  for (int d = 1; d <= D; ++d) {
    vector<I8> w(m.nents(d), 0); for (size_t k = 0; k < keys.size(); ++k) for (auto& kv : id[d]) { auto s = kv.first; if (!s.count(keys[k])) continue; if (s.count(onto[k])) w[kv.second] = 1; else if (d < D) { s.insert(onto[k]); if (id[d + 1].count(s)) w[kv.second] = 1; } }
    auto got = vec(dead[d]); REQUIRE(got == w, "removed: the entities around a rail and their sides opposite to the kept vertex", in() << S(keys) << S(RE) << " dim=" << d << S(got)); if (got != w) return;
    auto doms = find_coarsen_domains(&m, arr(keys), d, dead[d]); auto off = vec(doms.a2ab), b = vec(doms.ab2b); auto prod = vec(coarsen_topology(&m, arr(onto), d, doms, arr(o2n)));
    REQUIRE(off.size() == keys.size() + 1 && off[0] == 0 && off.back() == LO(b.size()) && prod.size() == b.size() * (d + 1), "coarsened entities: sizes", in() << S(off) << S(prod)); if (off.size() != keys.size() + 1 || prod.size() != b.size() * (d + 1)) return;
    for (size_t k = 0; k < keys.size(); ++k) { vector<LO> exp, have(b.begin() + off[k], b.begin() + off[k + 1]); for (auto& kv : id[d]) if (kv.first.count(keys[k]) && !w[kv.second]) exp.push_back(kv.second); auto h2 = have; std::sort(h2.begin(), h2.end()); std::sort(exp.begin(), exp.end()); REQUIRE(h2 == exp, "rebuilt: exactly the surviving entities around a key", in() << " key=" << keys[k] << S(have) << S(exp)); if (h2 != exp) return;
      for (int i = off[k]; i < off[k + 1]; ++i) { vector<LO> x(prod.begin() + i * (d + 1), prod.begin() + (i + 1) * (d + 1)), y; for (auto z : ent[d][b[i]]) y.push_back(o2n[z == keys[k] ? onto[k] : z]); REQUIRE(d == 1 ? x == y : parity(x, y) == 0, "the key becomes the vertex it merges with, same orientation", in() << " key=" << keys[k] << S(x) << S(y)); } }
  }
}
int main(int argc, char** argv) {
  setup(argc, argv); oh::Library lib(nullptr, nullptr); int Nn = g_thorough ? 2000 : 150;
  for (int t = 0; t < Nn; ++t) { Rng r(g_seed * 1000003 + t); one(&lib, r); }
  return finish();
}
