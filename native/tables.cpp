#include "common.hpp"
#include <Omega_h_element.hpp>
using namespace Omega_h;
static int comb(int n, int k) { int r = 1; for (int i = 0; i < k; ++i) r = r * (n - i) / (i + 1); return r; }
int main(int argc, char** argv) {
  setup(argc, argv);
  for (int f = 0; f < 2; ++f) {
    auto F = Omega_h_Family(f);
    auto D = [&](int d, int b, int i, int v) { return element_down_template(F, d, b, i, v); };
    auto set_of = [&](int d, int b, int i) { std::vector<int> r; for (int v = 0; v < element_degree(F, b, 0); ++v) r.push_back(D(d, b, i, v)); return r; };
    for (int d = 0; d < 4; ++d) for (int b = 0; b <= d; ++b) { begin_case(); REQUIRE(element_degree(F, d, b) == (f == 0 ? comb(d + 1, b + 1) : comb(d, b) << (d - b)), "element_degree", f << " " << d << " " << b); }
    for (int d = 1; d < 4; ++d) for (int b = 0; b < d; ++b) {
      std::set<std::set<int>> seen; int n = element_degree(F, d, b);
      for (int i = 0; i < n; ++i) { begin_case(); auto v = set_of(d, b, i); std::set<int> s(v.begin(), v.end());
        REQUIRE(s.size() == v.size() && *s.begin() >= 0 && *s.rbegin() < element_degree(F, d, 0), "side vertices distinct and in range", f << " " << d << " " << b << " " << i);
        REQUIRE(seen.insert(s).second, "two sides have the same vertices", f << " " << d << " " << b << " " << i); }
      if (b + 1 < d) for (int i = 0; i < n; ++i) {
        std::set<int> listed, real; auto own = set_of(d, b, i);
        int nup = element_degree(F, d, b + 1) * element_degree(F, b + 1, b) / n;
        for (int u = 0; u < nup; ++u) { begin_case();
          auto t = element_up_template(F, d, b, i, u); listed.insert(t.up);
          std::vector<int> th; for (size_t k = 0; k < own.size(); ++k) th.push_back(D(d, b + 1, t.up, D(b + 1, b, t.which_down, int(k))));
          if (t.is_flipped) std::reverse(th.begin(), th.end());
          REQUIRE(th == own, "up entry position and flip", "family " << f << " dim " << d << " side " << b << ":" << i << " up entry " << u);
        }
        for (int s = 0; s < element_degree(F, d, b + 1); ++s) { auto sv = set_of(d, b + 1, s); bool in = true; for (int o : own) in = in && std::count(sv.begin(), sv.end(), o); if (in) real.insert(s); }
        REQUIRE(listed == real, "up entries list the containing sides", "family " << f << " dim " << d << " side " << b << ":" << i);
      }
    }
    for (int i = 0; i < element_degree(F, 2, 1); ++i) { begin_case(); REQUIRE(D(2, 1, i, 1) == D(2, 1, (i + 1) % element_degree(F, 2, 1), 0) && D(2, 1, i, 0) == i, "2D sides run head to tail", f << " " << i); }
    static const int XS[4][3] = {{0,0,0},{1,0,0},{0,1,0},{0,0,1}}, XH[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}};
    auto X = f == 0 ? XS : XH;
    for (int i = 0; i < element_degree(F, 3, 2); ++i) for (int w = 0; w < element_degree(F, 3, 0); ++w) { begin_case();
      auto v = set_of(3, 2, i); int a[3], b[3], c[3]; for (int k = 0; k < 3; ++k) { a[k] = X[v[1]][k] - X[v[0]][k]; b[k] = X[v[2]][k] - X[v[0]][k]; c[k] = X[w][k] - X[v[0]][k]; }
      int det = c[0]*(a[1]*b[2]-a[2]*b[1]) + c[1]*(a[2]*b[0]-a[0]*b[2]) + c[2]*(a[0]*b[1]-a[1]*b[0]);
      bool on = std::count(v.begin(), v.end(), w); REQUIRE(on ? det == 0 : det < 0, "faces point outward", f << " face " << i << " vertex " << w); }
  }
  for (int d = 1; d < 4; ++d) for (int b = 0; b < d; ++b) for (int i = 0; i < simplex_degree(d, b); ++i) { begin_case();
    int o = d - b - 1, k = simplex_opposite_template(d, b, i); std::multiset<int> s;
    REQUIRE(k >= 0 && k < simplex_degree(d, o), "opposite in range", d << " " << b << " " << i);
    for (int p = 0; p <= b; ++p) s.insert(simplex_down_template(d, b, i, p));
    for (int p = 0; p <= o; ++p) s.insert(simplex_down_template(d, o, k, p));
    std::multiset<int> all; for (int v = 0; v <= d; ++v) all.insert(v);
    REQUIRE(s == all, "opposite entities are complementary", d << " " << b << " " << i); }
  return finish();
}
