#include "common.hpp"
#include <Omega_h_align.hpp>
using namespace Omega_h;
static I8 comp(int n, I8 a, I8 b) { return n == 4 ? compound_alignments<4>(a, b) : compound_alignments(n, a, b); }
// orientation as a function on vertex positions: rotate by r, then flip about 0
static int vact(int n, int i, int f, int r) { int j = (i + r) % n; return f ? (n - j) % n : j; }
static int eact(int n, int i, int f, int r) { int j = (i + r) % n; return f ? n - 1 - j : j; }
template <class T> static void apply(int n, Rng& r, int ne) {
  std::vector<T> v; std::vector<I8> c; std::vector<T> want(size_t(ne * n));
  for (int i = 0; i < ne * n; ++i) v.push_back(T(i * 7 + r(0, 3)));
  std::ostringstream in; in << "deg=" << n << " codes=";
  for (int e = 0; e < ne; ++e) {
    int f = n > 2 ? r(0, 1) : 0, rot = r(0, n - 1), w = r(0, 5); c.push_back(I8(make_code(f, rot, w))); in << int(c.back()) << ",";
    for (int j = 0; j < n; ++j) want[size_t(e * n + vact(n, j, f, rot))] = v[size_t(e * n + j)];
  }
  begin_case();
  auto got = vec(align_ev2v(n, arr(v), arr(c)));
  REQUIRE(got == want, "align_ev2v", in.str());
  // agreement with compounding: aligning twice = aligning by the compound
  std::vector<I8> c2, cc;
  for (int e = 0; e < ne; ++e) { int f = n > 2 ? r(0, 1) : 0; c2.push_back(I8(make_code(f, r(0, n - 1), 0))); cc.push_back(I8(comp(n, c[size_t(e)], c2.back()))); }
  auto twice = vec(align_ev2v(n, align_ev2v(n, arr(v), arr(c)), arr(c2))), once = vec(align_ev2v(n, arr(v), arr(cc)));
  REQUIRE(twice == once, "align twice == align by the compound", in.str() << " then " << str(c2));
  std::vector<I8> ci; for (auto x : c) ci.push_back(invert_alignment(n, x));
  REQUIRE(vec(align_ev2v(n, align_ev2v(n, arr(v), arr(c)), arr(ci))) == v, "invert_alignment", in.str());
}
int main(int argc, char** argv) {
  setup(argc, argv); Library lib(&argc, &argv); Rng r(g_seed);
  for (int f = 0; f < 2; ++f) for (int rot = 0; rot < 4; ++rot) for (int w = 0; w < 16; ++w) {
    begin_case(); auto c = I8(make_code(f, rot, w));
    REQUIRE(code_is_flipped(c) == bool(f) && code_rotation(c) == rot && code_which_down(c) == w, "make_code round trip", f << "," << rot << "," << w);
  }
  for (int n = 2; n <= 4; ++n) for (int f = 0; f < (n > 2 ? 2 : 1); ++f) for (int rot = 0; rot < n; ++rot) for (int w = 0; w < 6; ++w) {
    auto c = I8(make_code(f, rot, w)); auto ci = invert_alignment(n, c);
    for (int i = 0; i < n; ++i) {
      begin_case();
      REQUIRE(align_vert_index(n, i, c) == vact(n, i, f, rot), "align_vert_index", n << " " << i << " " << int(c));
      REQUIRE(align_index(n, 0, i, c) == vact(n, i, f, rot), "align_index dim 0", n << " " << i << " " << int(c));
      REQUIRE(align_vert_index(n, align_vert_index(n, i, c), ci) == i, "invert_alignment", n << " " << i << " " << int(c));
      if (n > 2) {
        REQUIRE(align_edge_index(n, i, c) == eact(n, i, f, rot), "align_edge_index", n << " " << i << " " << int(c));
        REQUIRE(align_index(n, 1, i, c) == eact(n, i, f, rot), "align_index dim 1", n << " " << i << " " << int(c));
        // the edge between vertices i and i+1 lands between their images
        int e = align_edge_index(n, i, c), a = align_vert_index(n, i, c), b = align_vert_index(n, (i + 1) % n, c);
        REQUIRE((e == a && (e + 1) % n == b) || (e == b && (e + 1) % n == a), "edge index agrees with its vertices", n << " " << i << " " << int(c));
      }
      REQUIRE(rotate_index(n, i, rotation_to_first(n, i)) == 0, "rotation_to_first", n << " " << i);
    }
    for (int f2 = 0; f2 < (n > 2 ? 2 : 1); ++f2) for (int r2 = 0; r2 < n; ++r2) {
      auto c2 = I8(make_code(f2, r2, 0)); auto cc = comp(n, c, c2);
      for (int i = 0; i < n; ++i) { begin_case();
        REQUIRE(align_vert_index(n, i, cc) == align_vert_index(n, align_vert_index(n, i, c), c2), "compound_alignments", n << " codes " << int(c) << " " << int(c2) << " index " << i);
      }
    }
  }
  for (int t = 0; t < (g_thorough ? 2000 : 200); ++t) for (int n = 2; n <= 4; ++n) { apply<LO>(n, r, r(0, 12)); apply<GO>(n, r, r(0, 12)); }
  return finish();
}
