#include "meshes.hpp"
#include <Omega_h_refine_topology.hpp>
using namespace Omega_h; using std::vector;
#define S(x) " " #x "=" << str(x)
static bool even_perm(vector<LO> a, vector<LO> const& b) { if (a.size() != b.size()) return false; int sw = 0; for (size_t i = 0; i < a.size(); ++i) { if (a[i] == b[i]) continue; auto it = std::find(a.begin() + i, a.end(), b[i]); if (it == a.end()) return false; std::iter_swap(a.begin() + i, it); ++sw; } return sw % 2 == 0; }
static void one(oh::Library* lib, Rng& r) {
  auto sp = rand_spec(r, false); auto m = r.coin() ? make_mesh(lib, sp) : rough_mesh(lib, sp, r); int D = m.dim(); auto ev = vec(m.ask_verts_of(EDGE)); int ne = m.nedges(), nv = m.nverts();
  vector<LO> keys; int mode = r(0, 3); for (int e = 0; e < ne; ++e) if (mode == 0 || (mode == 1 && r(0, 4) == 0) || (mode == 2 && r.coin())) keys.push_back(e);
  vector<LO> pool(nv + keys.size()); std::iota(pool.begin(), pool.end(), 0); for (int i = int(pool.size()) - 1; i > 0; --i) std::swap(pool[i], pool[r(0, i)]);
  vector<LO> mid(pool.begin(), pool.begin() + keys.size()), o2n(pool.begin() + keys.size(), pool.end());
  begin_case();
  for (int d = 1; d <= D; ++d) {
    LOs kp, pv; refine_products(&m, d, arr(keys), arr(mid), arr(o2n), kp, pv); auto K = vec(kp), P = vec(pv); std::ostringstream in; in << sp.str() << " elements=" << m.nelems() << " dim=" << d << S(keys) << S(mid) << S(o2n);
    auto verts = [&](int q, int x) { auto v = vec(m.ask_verts_of(q)); return vector<LO>(v.begin() + x * (q + 1), v.begin() + (x + 1) * (q + 1)); };
    REQUIRE(K.size() == keys.size() + 1 && K[0] == 0 && LO(P.size()) == K.back() * (d + 1), "products: sizes", in.str() << S(K)); if (K.size() != keys.size() + 1 || LO(P.size()) != K.back() * (d + 1)) continue;
    for (size_t k = 0; k < keys.size(); ++k) {
      LO e = keys[k]; LO a[2] = {ev[e * 2], ev[e * 2 + 1]}; vector<LO> doms, up;
      auto around = [&](int q) { vector<LO> o; if (q == 1) { o.push_back(e); return o; } auto A = m.ask_up(EDGE, q); auto f = vec(A.a2ab), g = vec(A.ab2b); for (int i = f[e]; i < f[e + 1]; ++i) o.push_back(g[i]); return o; };
      doms = around(d); if (d < D) up = around(d + 1); size_t n = doms.size() * 2 + up.size(); REQUIRE(size_t(K[k + 1] - K[k]) == n, "products: number per edge", in.str() << " key=" << k << S(K)); if (size_t(K[k + 1] - K[k]) != n) continue;
      auto prod = [&](size_t i) { return vector<LO>(P.begin() + (K[k] + i) * (d + 1), P.begin() + (K[k] + i + 1) * (d + 1)); };
      for (size_t i = 0; i < doms.size(); ++i) { auto v = verts(d, doms[i]); bool hit[2] = {false, false}; for (int h = 0; h < 2; ++h) { auto q = prod(2 * i + h); for (int x = 0; x < 2; ++x) { vector<LO> w; for (auto y : v) w.push_back(y == a[x] ? mid[k] : o2n[y]); if (d == 1 ? w == q : even_perm(q, w)) hit[x] = true; } }
        REQUIRE(hit[0] && hit[1], "the two halves replace one end each by the midpoint, same orientation", in.str() << " key=" << k << " domain=" << doms[i] << S(v) << S(prod(2 * i)) << S(prod(2 * i + 1))); }
      for (size_t i = 0; i < up.size(); ++i) { auto v = verts(d + 1, up[i]); vector<LO> w{mid[k]}; for (auto y : v) if (y != a[0] && y != a[1]) w.push_back(o2n[y]); auto q = prod(2 * doms.size() + i); std::sort(w.begin(), w.end()); auto q2 = q; std::sort(q2.begin(), q2.end()); REQUIRE(q2 == w, "interior entity joins the midpoint and the opposite vertices", in.str() << " key=" << k << " domain=" << up[i] << S(q)); }
    }
  }
}
int main(int argc, char** argv) {
  setup(argc, argv); oh::Library lib(nullptr, nullptr); int Nn = g_thorough ? 2000 : 150;
  for (int t = 0; t < Nn; ++t) { Rng r(g_seed * 1000003 + t); one(&lib, r); }
  return finish();
}
