#include "common.hpp"
#include <Omega_h_graph.hpp>
using namespace Omega_h;
using std::vector;
#define S(x) " " #x "=" << str(x)
struct G { vector<LO> off, e; };
static G rg(Rng& r, int n, int m, int maxdeg, bool hub) { G g; g.off.push_back(0); for (int i = 0; i < n; ++i) { int d = m ? (hub && r(0, 3) == 0 ? r(120, 300) : r(0, maxdeg)) : 0; for (int j = 0; j < d; ++j) g.e.push_back(r(0, m - 1)); g.off.push_back(LO(g.e.size())); } return g; }
static Graph gg(G const& g) { return Graph(arr(g.off), arr(g.e)); }
static G back(Graph g) { return G{vec(g.a2ab), vec(g.ab2b)}; }
static bool same(G const& a, G const& b) { return a.off == b.off && a.e == b.e; }
#define REQG(o, x, what, in) REQUIRE(same(o, x), what, in << " got off=" << str(o.off) << " e=" << str(o.e) << " expected off=" << str(x.off) << " e=" << str(x.e))
static void one(Rng& r) {
  int n = r(0, 7); bool hub = r(0, 9) == 0; G a = rg(r, n, n, 3, hub), b = rg(r, n, n, 3, false); auto A = gg(a), B = gg(b); std::ostringstream in; in << S(a.off) << S(a.e) << S(b.off) << S(b.e);
  begin_case(); REQUIRE(A.nnodes() == n && A.nedges() == LO(a.e.size()), "sizes", in.str());
  { G x; x.off.push_back(0); for (int i = 0; i < n; ++i) { x.e.insert(x.e.end(), a.e.begin() + a.off[i], a.e.begin() + a.off[i + 1]); x.e.insert(x.e.end(), b.e.begin() + b.off[i], b.e.begin() + b.off[i + 1]); x.off.push_back(LO(x.e.size())); } auto o = back(add_edges(A, B)); REQG(o, x, "add_edges", in.str()); }
  { G x; x.off.push_back(0); for (int i = 0; i < n; ++i) { x.e.push_back(i); x.e.insert(x.e.end(), a.e.begin() + a.off[i], a.e.begin() + a.off[i + 1]); x.off.push_back(LO(x.e.size())); } auto o = back(add_self_edges(A)); REQG(o, x, "add_self_edges", in.str()); }
  { G x; x.off.push_back(0); for (int i = 0; i < n; ++i) { x.e.push_back(i); x.off.push_back(i + 1); } auto o = back(identity_graph(n)); REQG(o, x, "identity_graph", in.str()); }
  { int m = n ? r(0, 6) : 0; vector<LO> u(m); for (auto& v : u) v = r(0, n - 1); G x; x.off.push_back(0); for (auto v : u) { x.e.insert(x.e.end(), a.e.begin() + a.off[v], a.e.begin() + a.off[v + 1]); x.off.push_back(LO(x.e.size())); } auto o = back(unmap_graph(arr(u), A)); REQG(o, x, "unmap_graph", in.str() << S(u)); }
  { vector<I8> k(a.e.size()); int mode = r(0, 3); for (auto& v : k) v = mode == 0 ? I8(1) : mode == 1 ? I8(0) : I8(r(0, 1)); G x; x.off.push_back(0); for (int i = 0; i < n; ++i) { for (int j = a.off[i]; j < a.off[i + 1]; ++j) if (k[j]) x.e.push_back(a.e[j]); x.off.push_back(LO(x.e.size())); } auto o = back(filter_graph_edges(A, arr(k))); REQG(o, x, "filter_graph_edges", in.str() << S(k)); }
  { vector<I8> k(n); for (auto& v : k) v = I8(r(0, 3) ? 1 : 0); vector<LO> nw(n, -1); int c = 0; for (int i = 0; i < n; ++i) if (k[i]) nw[i] = c++; G x; x.off.push_back(0); for (int i = 0; i < n; ++i) if (k[i]) { for (int j = a.off[i]; j < a.off[i + 1]; ++j) if (k[a.e[j]]) x.e.push_back(nw[a.e[j]]); x.off.push_back(LO(x.e.size())); } auto o = back(filter_graph_nodes(A, arr(k))); REQG(o, x, "filter_graph_nodes", in.str() << S(k)); }
  REQUIRE((A == B) == same(a, b), "operator==", in.str()); REQUIRE(A == gg(a), "operator== on equal graphs", in.str());
  if (!a.e.empty()) { auto c = a; c.e[r(0, int(c.e.size()) - 1)]++; REQUIRE(!(A == gg(c)), "operator== with one different edge", in.str()); }
  { int w = r(1, 3); bool full = true; vector<LO> deg; for (int i = 0; i < n; ++i) full = full && a.off[i + 1] > a.off[i]; 
    if (full) { vector<Real> wt(a.e.size()), d(n * w), ad(a.e.size() * w); for (auto& v : wt) v = r(1, 9) / 8.0; for (auto& v : d) v = r(-20, 20) / 4.0; for (auto& v : ad) v = r(-20, 20) / 4.0;
      auto o = vec(graph_weighted_average(A, arr(wt), arr(d), w)), o2 = vec(graph_weighted_average_arc_data(A, arr(wt), arr(ad), w)); bool ok = LO(o.size()) == n * w && LO(o2.size()) == n * w;
      for (int i = 0; ok && i < n; ++i) for (int j = 0; j < w; ++j) { Real s = 0, t = 0, s2 = 0; for (int x = a.off[i]; x < a.off[i + 1]; ++x) { s += wt[x] * d[a.e[x] * w + j]; s2 += wt[x] * ad[x * w + j]; t += wt[x]; } ok = ok && std::fabs(o[i * w + j] - s / t) < 1e-9 && std::fabs(o2[i * w + j] - s2 / t) < 1e-9; }
      REQUIRE(ok, "graph_weighted_average", in.str() << S(wt) << S(d) << S(ad) << " w=" << w << S(o) << S(o2)); } }
  { int w = r(1, 3), m = r(0, 9); vector<LO> p(m); std::iota(p.begin(), p.end(), 0); for (int i = m - 1; i > 0; --i) std::swap(p[i], p[r(0, i)]); G g; g.off.push_back(0); int left = r(0, m); for (int i = 0; i < n; ++i) { int t = r(0, left); t = std::min(t, 3); for (int j = 0; j < t; ++j) { g.e.push_back(p[g.e.size()]); --left; } g.off.push_back(LO(g.e.size())); }
    vector<LO> d(n * w), t(m * w); for (auto& v : d) v = r(0, 99); for (auto& v : t) v = r(-99, -1); auto x = t, y = vector<LO>(m * w, -7); for (int i = 0; i < n; ++i) for (int s = g.off[i]; s < g.off[i + 1]; ++s) for (int j = 0; j < w; ++j) x[g.e[s] * w + j] = y[g.e[s] * w + j] = d[i * w + j];
    auto T = warr(t); map_into(arr(d), gg(g), T, w); auto o = vec(T); REQUIRE(o == x, "map_into over a graph", S(g.off) << S(g.e) << S(d) << S(t) << " w=" << w << S(o)); auto o2 = vec(map_onto(arr(d), gg(g), LO(m), LO(-7), w)); REQUIRE(o2 == y, "map_onto over a graph", S(g.off) << S(g.e) << S(d) << " w=" << w << S(o2)); }
}
int main(int argc, char** argv) {
  setup(argc, argv); oh::Library lib(nullptr, nullptr); int N = g_thorough ? 20000 : 2000;
  for (int t = 0; t < N; ++t) { Rng r(g_seed * 1000003 + t); one(r); }
  return finish();
}
