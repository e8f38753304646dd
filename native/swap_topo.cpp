#include "meshes.hpp"
#include <Omega_h_swap2d.hpp>
#include <Omega_h_swap3d.hpp>
#include <Omega_h_mark.hpp>
#include <Omega_h_swap3d_tables.hpp>
using namespace Omega_h; using std::vector;
#define S(x) " " #x "=" << str(x)
static int parity(vector<LO> v) { int n = 0; for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) n += v[i] > v[j]; return n % 2; }
using Chain = std::map<vector<LO>, int>;
static void add(Chain& c, vector<LO> v, int s) { int p = parity(v); std::sort(v.begin(), v.end()); auto& x = c[v]; x += p ? -s : s; if (!x) c.erase(v); }
static void bdry(Chain& c, vector<LO> const& e) { for (size_t i = 0; i < e.size(); ++i) { auto f = e; f.erase(f.begin() + i); add(c, f, i % 2 ? -1 : 1); } }
static vector<LO> at(vector<LO> const& a, int i, int n) { return vector<LO>(a.begin() + i * n, a.begin() + (i + 1) * n); }
static void one2(oh::Library* lib, Rng& r) {
  MeshSpec sp; sp.fam = OMEGA_H_SIMPLEX; sp.dim = 2; sp.nx = r(1, 4); sp.ny = r(1, 4); sp.nz = 0; auto m = r.coin() ? make_mesh(lib, sp) : rough_mesh(lib, sp, r);
  auto ev = vec(m.ask_verts_of(EDGE)), tv = vec(m.ask_elem_verts()); auto up = m.ask_up(EDGE, FACE); auto f = vec(up.a2ab), u = vec(up.ab2b); vector<LO> keys; for (LO e = 0; e < m.nedges(); ++e) if (f[e + 1] - f[e] == 2 && r.coin()) keys.push_back(e);
  begin_case(); HostFew<LOs, 3> kp, pv; swap2d_topology(&m, arr(keys), &kp, &pv); auto P1 = vec(kp[EDGE]), P2 = vec(kp[FACE]), E = vec(pv[EDGE]), T = vec(pv[FACE]);
  auto in = [&] { std::ostringstream o; o << sp.str() << S(tv) << S(ev) << S(keys); return o.str(); }; size_t n = keys.size();
  bool sz = P1.size() == n + 1 && P2.size() == n + 1 && E.size() == 2 * n && T.size() == 6 * n; REQUIRE(sz, "2D swap: sizes", in()); if (!sz) return;
  for (size_t k = 0; k < n; ++k) {
    LO e = keys[k]; Chain a, b; std::set<LO> opp; for (int i = f[e]; i < f[e + 1]; ++i) { auto t = at(tv, u[i], 3); bdry(a, t); for (auto v : t) if (v != ev[2 * e] && v != ev[2 * e + 1]) opp.insert(v); }
    REQUIRE(P1[k] == LO(k) && P2[k] == LO(2 * k) && P1[n] == LO(n) && P2[n] == LO(2 * n), "2D swap: offsets", in());
    REQUIRE((std::set<LO>{E[2 * k], E[2 * k + 1]}) == opp, "2D swap: the new edge joins the opposite vertices", in() << " key=" << k << S(E));
    for (int i = 0; i < 2; ++i) { auto t = at(T, 2 * k + i, 3); REQUIRE(std::count(t.begin(), t.end(), E[2 * k]) == 1 && std::count(t.begin(), t.end(), E[2 * k + 1]) == 1, "2D swap: both triangles use the new edge", in() << " key=" << k << S(t)); bdry(b, t); }
    REQUIRE(a == b, "2D swap: same cavity, same orientation", in() << " key=" << k << S(at(T, 2 * k, 3)) << S(at(T, 2 * k + 1, 3)));
  }
}
static void check3(Mesh& m, vector<LO> const& keys, vector<I8> const& cfg, std::string const& what) {
  auto ev = vec(m.ask_verts_of(EDGE)), tv = vec(m.ask_elem_verts()); auto up = m.ask_up(EDGE, REGION); auto f = vec(up.a2ab), u = vec(up.ab2b); begin_case();
  auto kp = swap3d_keys_to_prods(&m, arr(keys)); auto pv = swap3d_topology(&m, arr(keys), Read<I8>(arr(cfg)), kp); size_t n = keys.size(); vector<LO> K[4], V[4]; for (int d = 1; d <= 3; ++d) { K[d] = vec(kp[d]); V[d] = vec(pv[d]); }
  auto in = [&] { std::ostringstream o; o << what << S(tv) << S(keys) << S(cfg); return o.str(); };
  for (int d = 1; d <= 3; ++d) { bool sz = K[d].size() == n + 1 && K[d][0] == 0 && LO(V[d].size()) == K[d][n] * (d + 1); REQUIRE(sz, "3D swap: sizes", in() << " dim=" << d << S(K[d])); if (!sz) return; }
  for (size_t k = 0; k < n; ++k) {
    LO e = keys[k]; int N = f[e + 1] - f[e]; LO e0 = ev[2 * e], e1 = ev[2 * e + 1]; Chain a, b, pl; std::map<LO, LO> next; vector<LO> ring;
    for (int i = f[e]; i < f[e + 1]; ++i) { auto t = at(tv, u[i], 4); bdry(a, t); vector<LO> o; for (auto v : t) if (v != e0 && v != e1) o.push_back(v); vector<LO> p; for (auto v : {e0, e1, o[0], o[1]}) p.push_back(LO(std::find(t.begin(), t.end(), v) - t.begin())); if (parity(p)) std::swap(o[0], o[1]); next[o[0]] = o[1]; }
    for (LO v = next.begin()->first; int(ring.size()) < N; v = next[v]) ring.push_back(v);
    int c[4] = {0, N - 3, (N - 2) + 2 * (N - 3), 2 * (N - 2)}; bool ok = true; for (int d = 1; d <= 3; ++d) { REQUIRE(K[d][k + 1] - K[d][k] == c[d], "3D swap: number of products", in() << " key=" << k << " dim=" << d); ok = ok && K[d][k + 1] - K[d][k] == c[d]; } if (!ok) continue;
    std::set<std::set<LO>> tri, edges, sides, inner; std::map<std::set<LO>, int> seen; std::set<LO> R(ring.begin(), ring.end()); std::set<std::set<LO>> poly; for (int i = 0; i < N; ++i) { add(pl, {ring[i], ring[(i + 1) % N]}, -1); poly.insert({ring[i], ring[(i + 1) % N]}); }
    for (int i = K[2][k]; i < K[2][k + 1]; ++i) { auto t = at(V[2], i, 3); std::set<LO> q(t.begin(), t.end()); if (q.count(e0) || q.count(e1)) { sides.insert(q); continue; } tri.insert(q); bdry(pl, t); for (auto x : q) for (auto y : q) if (x < y && !poly.count({x, y})) inner.insert({x, y});
      vector<LO> p; for (auto v : t) p.push_back(LO(std::find(ring.begin(), ring.end(), v) - ring.begin())); REQUIRE(q.size() == 3 && parity(p) == 0 && *std::max_element(p.begin(), p.end()) < N, "3D swap: plane triangle counterclockwise in the ring", in() << " key=" << k << S(ring) << S(t)); }
    REQUIRE(int(tri.size()) == N - 2 && pl.empty(), "3D swap: plane triangles tile the ring", in() << " key=" << k << S(ring) << S(V[2]));
    for (int i = K[1][k]; i < K[1][k + 1]; ++i) edges.insert({V[1][2 * i], V[1][2 * i + 1]}); REQUIRE(edges == inner, "3D swap: new edges are the interior edges", in() << " key=" << k << S(ring) << S(V[1]));
    std::set<std::set<LO>> want; for (auto q : inner) for (LO x : {e0, e1}) { auto w = q; w.insert(x); want.insert(w); } REQUIRE(sides == want, "3D swap: side triangles", in() << " key=" << k << S(ring) << S(V[2]));
    std::set<std::set<LO>> tets; for (int i = K[3][k]; i < K[3][k + 1]; ++i) { auto t = at(V[3], i, 4); bdry(b, t); std::set<LO> q(t.begin(), t.end()); int w = int(q.count(e0)) + int(q.count(e1)); q.erase(e0); q.erase(e1); REQUIRE(w == 1 && tri.count(q), "3D swap: a tetrahedron stands on a plane triangle", in() << " key=" << k << S(t)); }
    REQUIRE(a == b, "3D swap: same cavity, same orientation", in() << " key=" << k << S(ring) << S(V[3]));
  }
}
static void ring_mesh(oh::Library* lib, Rng& r, int N, int cfg) {
  vector<LO> perm(N + 2); std::iota(perm.begin(), perm.end(), 0); for (int i = N + 1; i > 0; --i) std::swap(perm[i], perm[r(0, i)]); vector<vector<LO>> t; for (int i = 0; i < N; ++i) t.push_back({perm[N], perm[N + 1], perm[i], perm[(i + 1) % N]});
  for (int i = N - 1; i > 0; --i) std::swap(t[i], t[r(0, i)]); vector<LO> ev; for (auto& q : t) { for (int x = 0; x < 6; ++x) { int a = r(0, 3), b = r(0, 3), c = r(0, 3); if (a != b && b != c && a != c) { std::swap(q[a], q[b]); std::swap(q[b], q[c]); } } for (auto v : q) ev.push_back(v); }
  vector<Real> co((N + 2) * 3); for (auto& x : co) x = r.real(); Mesh m(lib); build_from_elems_and_coords(&m, OMEGA_H_SIMPLEX, 3, arr(ev), Reals(arr(co)));
  auto up = m.ask_up(EDGE, REGION); auto f = vec(up.a2ab); vector<LO> keys; vector<I8> c(m.nedges(), 99); for (LO e = 0; e < m.nedges(); ++e) if (f[e + 1] - f[e] == N) { keys.push_back(e); c[e] = I8(cfg); } check3(m, keys, c, "ring of " + std::to_string(N));
}
static void box_mesh(oh::Library* lib, Rng& r) {
  MeshSpec sp; sp.fam = OMEGA_H_SIMPLEX; sp.dim = 3; sp.nx = r(1, 3); sp.ny = r(1, 3); sp.nz = r(1, 3); auto m = make_mesh(lib, sp); auto ex = vec(mark_exposed_sides(&m)); auto onb = vec(mark_down(&m, FACE, EDGE, mark_exposed_sides(&m)));
  auto f = vec(m.ask_up(EDGE, REGION).a2ab); vector<LO> keys; vector<I8> c(m.nedges(), 99); for (LO e = 0; e < m.nedges(); ++e) if (!onb[e] && f[e + 1] - f[e] <= 7 && r.coin()) { keys.push_back(e); c[e] = I8(r(0, swap3d::swap_mesh_counts[f[e + 1] - f[e]] - 1)); } if (!keys.empty()) check3(m, keys, c, sp.str());
}
int main(int argc, char** argv) {
  setup(argc, argv); oh::Library lib(nullptr, nullptr); int Nn = g_thorough ? 600 : 40; int cat[8] = {0, 0, 0, 1, 2, 5, 14, 42};
  for (int N = 3; N <= 7; ++N) REQUIRE(swap3d::swap_mesh_counts[N] <= cat[N], "3D swap: no more configurations than triangulations", N);
  for (int t = 0; t < Nn; ++t) { Rng r(g_seed * 1000003 + t); one2(&lib, r); box_mesh(&lib, r); }
  for (int N = 3; N <= 7; ++N) for (int c = 0; c < swap3d::swap_mesh_counts[N] && c < cat[N]; ++c) for (int t = 0; t < (g_thorough ? 20 : 2); ++t) { Rng r(g_seed * 7919 + N * 1000 + c * 20 + t); ring_mesh(&lib, r, N, c); }
  return finish();
}
