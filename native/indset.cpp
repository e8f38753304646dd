#include "meshes.hpp"
#include <Omega_h_indset.hpp>
#include <Omega_h_graph.hpp>
#include <csignal>
#include <unistd.h>
using namespace Omega_h; using std::vector;
static std::string g_in;
static void late(int) { std::printf("FAIL independent set: the rounds end | input: %s\nCASES %ld\n", g_in.c_str(), g_cases); std::fflush(stdout); _exit(3); }
struct Watch { Watch(std::string const& in) { g_in = in; alarm(25); } ~Watch() { alarm(0); } };
#define S(x) " " #x "=" << str(x)
// the definition, round by round
static vector<I8> want(vector<LO> const& off, vector<LO> const& adj, vector<Real> const& q, vector<GO> const& g, vector<I8> const& c) {
  LO n = LO(c.size()); vector<I8> s(n); for (LO i = 0; i < n; ++i) s[i] = c[i] ? 2 : 0;
  for (int round = 0; round <= n && std::count(s.begin(), s.end(), 2); ++round) { auto t = s;
    for (LO v = 0; v < n; ++v) if (s[v] == 2) { bool in = false, top = true; for (LO j = off[v]; j < off[v + 1]; ++j) { LO u = adj[j]; in = in || s[u] == 1; if (s[u] == 2) top = top && (q[u] < q[v] || (q[u] == q[v] && g[u] < g[v])); } if (in) t[v] = 0; else if (top) t[v] = 1; }
    s = t; }
  return s;
}
static void check(vector<LO> const& off, vector<LO> const& adj, vector<Real> const& q, vector<GO> const& g, vector<I8> const& c, vector<I8> const& s, std::string const& in) {
  LO n = LO(c.size()); REQUIRE(LO(s.size()) == n, "independent set: size", in); if (LO(s.size()) != n) return;
  for (LO v = 0; v < n; ++v) { bool nb = false; for (LO j = off[v]; j < off[v + 1]; ++j) nb = nb || s[adj[j]] == 1; bool ok = s[v] == 1 ? c[v] != 0 && !nb : s[v] == 0 && (c[v] == 0 || nb);
    REQUIRE(ok, "independent set: chosen nodes are not adjacent, rejected candidates have a chosen neighbour", in << " node=" << v << " result=" << str(s)); if (!ok) return; }
  auto w = want(off, adj, q, g, c); REQUIRE(s == w, "independent set: highest quality first, ties by global number", in << " result=" << str(s) << " expected=" << str(w));
}
static void one(oh::Library* lib, Rng& r) {
  begin_case(); auto sp = rand_spec(r); auto m = r.coin() ? make_mesh(lib, sp) : rough_mesh(lib, sp, r); int D = m.dim(), d = r(0, D); LO n = m.nents(d); int lv = r(1, 4);
  vector<Real> q(n); vector<GO> g(n); vector<I8> c(n); for (auto& x : q) x = r(0, 3) ? r(-lv, lv) / 4.0 : r.real(); for (LO i = 0; i < n; ++i) g[i] = i; bool wide = r.coin(); for (LO i = n - 1; i > 0; --i) std::swap(g[i], g[r(0, i)]); if (wide) for (auto& x : g) x = (x << 33) - (GO(1) << 34) + r(0, 5) * (GO(1) << 20); if (!wide && r(0, 2) == 0) for (auto& x : g) x = x * (GO(1) << 32) + 7; if (r(0, 3) == 0) { Real h = r.coin() ? 0.6e-10 : r.coin() ? 1e-15 : 1e-7; for (auto& x : q) x = r(0, 1) + h * r(0, 4); } for (auto& x : c) x = r(0, 4) ? (r(0, 9) ? 1 : I8(r(-3, 3))) : 0;
  if (m.has_tag(d, "global")) m.set_tag(d, "global", arr(g)); else m.add_tag(d, "global", 1, arr(g));
  auto Q = arr(q); auto Cc = arr(c);
  std::ostringstream in; in << sp.str() << " dim=" << d << S(q) << S(g) << S(c);
  Watch w(in.str());
  if ((r.coin() || (d > 0 && d < D && (d > 1 || sp.fam != OMEGA_H_SIMPLEX))) && n > 0) { vector<std::set<LO>> a(n); int k = r(0, 3 * n); for (int i = 0; i < k; ++i) { LO u = r(0, n - 1), v = r(0, n - 1); if (u != v) { a[u].insert(v); a[v].insert(u); } } if (r(0, 3) == 0) { for (auto& x : a) x.clear(); for (LO i = 0; i + 1 < n; ++i) { a[i].insert(i + 1); a[i + 1].insert(i); } }
    vector<LO> off{0}, adj; for (auto& x : a) { vector<LO> l(x.begin(), x.end()); for (size_t i = l.size(); i > 1; --i) std::swap(l[i - 1], l[r(0, int(i) - 1)]); adj.insert(adj.end(), l.begin(), l.end()); off.push_back(LO(adj.size())); }
    in << S(off) << S(adj); g_in = in.str(); check(off, adj, q, g, c, vec(find_indset(&m, d, Graph(arr(off), arr(adj)), Q, Cc)), in.str());
  } else {
    vector<LO> off(n + 1, 0), adj; if (d < D) { // neighbours: entities of an element with it
      auto dn = vec(m.ask_down(D, d).ab2b); int per = int(dn.size()) / m.nelems(); vector<std::set<LO>> a(n); auto link = [&](vector<LO> const& l) { for (auto u : l) for (auto v : l) if (u != v) a[u].insert(v); };
      for (LO e = 0; e < m.nelems(); ++e) link(vector<LO>(dn.begin() + e * per, dn.begin() + (e + 1) * per)); off.assign(1, 0); for (auto& x : a) { adj.insert(adj.end(), x.begin(), x.end()); off.push_back(LO(adj.size())); } 
      if (d == 0) { auto s = vec(find_indset(&m, d, Q, Cc)); vector<std::set<LO>> b(n); auto ev = vec(m.ask_verts_of(1)); for (size_t i = 0; i + 1 < ev.size(); i += 2) { b[ev[i]].insert(ev[i + 1]); b[ev[i + 1]].insert(ev[i]); } vector<LO> o2{0}, a2; for (auto& x : b) { a2.insert(a2.end(), x.begin(), x.end()); o2.push_back(LO(a2.size())); } if (sp.fam == OMEGA_H_SIMPLEX) check(o2, a2, q, g, c, s, in.str()); return; }
      { auto st = m.ask_star(d); auto so = vec(st.a2ab), sa = vec(st.ab2b); vector<std::set<LO>> b(n); for (LO i = 0; i < n; ++i) b[i].insert(sa.begin() + so[i], sa.begin() + so[i + 1]); REQUIRE(b == a, "neighbours of an entity: those of the elements around it", in.str()); check(off, adj, q, g, c, vec(find_indset(&m, d, Q, Cc)), in.str()); }
    } else REQUIRE(vec(find_indset(&m, d, Q, Cc)) == c, "elements: all candidates", in.str());
  }
  REQUIRE(vec(Q) == q && vec(Cc) == c, "inputs are unchanged", in.str());
}
int main(int argc, char** argv) {
  setup(argc, argv); std::signal(SIGALRM, late); oh::Library lib(nullptr, nullptr); int Nn = g_thorough ? 6000 : 500;
  for (int t = 0; t < Nn; ++t) { Rng r(g_seed * 1000003 + t); one(&lib, r); }
  return finish();
}
