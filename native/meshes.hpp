// random small meshes on one rank
#pragma once
#include "common.hpp"
#include <Omega_h_mesh.hpp>
#include <Omega_h_build.hpp>
#include <Omega_h_element.hpp>
#include <Omega_h_adj.hpp>
#include <Omega_h_class.hpp>
#include <Omega_h_array_ops.hpp>
#include <Omega_h_map.hpp>
namespace oh = Omega_h;
struct MeshSpec { Omega_h_Family fam; int dim, nx, ny, nz; std::string str() const { std::ostringstream o; o << (fam == OMEGA_H_SIMPLEX ? "simplex" : "hypercube") << " box " << nx << "x" << ny << "x" << nz; return o.str(); } };
static inline MeshSpec rand_spec(Rng& r, bool cubes = true) {
  MeshSpec s; s.fam = (cubes && r(0, 2) == 0) ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX; s.dim = s.fam == OMEGA_H_HYPERCUBE ? r(2, 3) : r(1, 3);
  s.nx = r(1, s.dim == 1 ? 6 : 3); s.ny = s.dim > 1 ? r(1, 3) : 0; s.nz = s.dim > 2 ? r(1, 2) : 0; return s;
}
static inline oh::Mesh make_mesh(oh::Library* lib, MeshSpec const& s) { return oh::build_box(lib->world(), s.fam, 1., s.ny ? 1. : 0., s.nz ? 1. : 0., s.nx, s.ny, s.nz); }
// a mesh from explicit connectivity with randomly removed elements, so that entities
// have irregular neighbourhoods; vertex numbers are shuffled
static inline oh::Mesh rough_mesh(oh::Library* lib, MeshSpec const& s, Rng& r) {
  auto m = make_mesh(lib, s); auto ev = vec(m.ask_elem_verts()); auto co = vec(m.coords()); int nv = m.nverts(), per = int(ev.size()) / m.nelems();
  std::vector<LO> keep; for (LO e = 0; e < m.nelems(); ++e) if (r(0, 3)) keep.push_back(e); if (keep.empty()) keep.push_back(0);
  std::vector<LO> perm(nv); std::iota(perm.begin(), perm.end(), 0); for (int i = nv - 1; i > 0; --i) std::swap(perm[i], perm[r(0, i)]);
  std::vector<LO> nw(nv, -1); std::vector<LO> used; for (auto e : keep) for (int j = 0; j < per; ++j) nw[ev[e * per + j]] = 0; for (int i = 0; i < nv; ++i) if (nw[perm[i]] == 0) { nw[perm[i]] = LO(used.size()); used.push_back(perm[i]); }
  for (int i = int(keep.size()) - 1; i > 0; --i) std::swap(keep[i], keep[r(0, i)]);
  std::vector<LO> ev2; for (auto e : keep) for (int j = 0; j < per; ++j) ev2.push_back(nw[ev[e * per + j]]);
  std::vector<Real> c2; for (auto v : used) for (int j = 0; j < s.dim; ++j) c2.push_back(co[v * s.dim + j]);
  oh::Mesh out(lib); oh::build_from_elems_and_coords(&out, s.fam, s.dim, arr(ev2), oh::Reals(arr(c2)));
  return out;
}
static inline std::vector<I8> rand_marks(Rng& r, int n) { std::vector<I8> v(n); int mode = r(0, 4); for (auto& x : v) x = mode == 0 ? I8(0) : mode == 1 ? I8(1) : mode == 2 ? I8(r(0, 5) == 0) : I8(r(0, 1)); return v; }
