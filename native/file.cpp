#include "meshes.hpp"
#include <Omega_h_file.hpp>
#include <Omega_h_amr.hpp>
#include <Omega_h_adapt.hpp>
#include <Omega_h_inertia.hpp>
#include <Omega_h_comm.hpp>
#include <Omega_h_tag.hpp>
#include <zlib.h>
#include <unistd.h>
using namespace Omega_h;
typedef std::vector<unsigned char> Bytes_;
template <class T> static T bits(Rng& r) { uint64_t x = r.next(); T t; std::memcpy(&t, &x, sizeof(T)); return t; }
template <class T> static Bytes_ raw(T v, bool sw) { Bytes_ b(sizeof(T)); std::memcpy(b.data(), &v, sizeof(T)); if (sw) std::reverse(b.begin(), b.end()); return b; }
static Bytes_ bytes(std::string const& s) { return Bytes_(s.begin(), s.end()); }
template <class T> static bool same(T a, T b) { return !std::memcmp(&a, &b, sizeof(T)); }
template <class T> static bool same(Read<T> a, Read<T> b) {
  if (a.exists() != b.exists()) return false; if (!a.exists()) return true; if (a.size() != b.size()) return false;
  HostRead<T> x(a), y(b); for (LO i = 0; i < a.size(); ++i) if (!same(x[i], y[i])) return false; return true;
}
template <class T> static char const* nm(); template <> char const* nm<I8>() { return "I8"; } template <> char const* nm<I32>() { return "I32"; } template <> char const* nm<I64>() { return "I64"; } template <> char const* nm<Real>() { return "Real"; }
template <class T> static void value(Rng& r, bool sw) {
  begin_case(); T v = bits<T>(r), w = v; std::stringstream s; binary::write_value(s, v, sw);
  REQUIRE(bytes(s.str()) == raw(v, sw), "bytes of a value", nm<T>() << " swapped=" << sw << " bytes=" << str(raw(v, false)));
  T q = bits<T>(r); binary::read_value(s, q, sw); REQUIRE(same(q, v), "value read back", nm<T>() << " swapped=" << sw << " bytes=" << str(raw(v, false)));
  binary::swap_bytes(w); REQUIRE(raw(w, false) == raw(v, true), "swapped bytes", nm<T>() << " bytes=" << str(raw(v, false))); binary::swap_bytes(w); REQUIRE(same(w, v), "swapped twice", nm<T>());
}
template <class T> static void array(Rng& r, int n, bool z, bool sw) {
  begin_case(); HostWrite<T> h(n); int mode = r(0, 2); for (int i = 0; i < n; ++i) h[i] = mode == 0 ? bits<T>(r) : mode == 1 ? T(i / 7) : (r(0, 9) ? T(0) : bits<T>(r)); Read<T> a(h.write());
  auto in = [&] { std::ostringstream o; o << nm<T>() << " n=" << n << " compressed=" << z << " swapped=" << sw; return o.str(); };
  Read<T> keep = deep_copy(a); std::stringstream s; binary::write_array(s, a, z, sw); REQUIRE(same(a, keep), "the array written is not changed", in());
  Bytes_ b = bytes(s.str()), want = raw(LO(n), sw), payload; { HostRead<T> x(keep); for (int i = 0; i < n; ++i) { auto e = raw(x[i], sw); payload.insert(payload.end(), e.begin(), e.end()); } }
  if (!z) { want.insert(want.end(), payload.begin(), payload.end()); REQUIRE(b == want, "bytes of an array", in()); }
  else {
    bool ok = b.size() >= 12 && std::equal(want.begin(), want.end(), b.begin()); I64 m = I64(b.size()) - 12; if (ok) { auto l = raw(m, sw); ok = std::equal(l.begin(), l.end(), b.begin() + 4); }
    if (ok) { Bytes_ o(payload.size() + 1); uLongf ol = o.size(); ok = ::uncompress(o.data(), &ol, b.data() + 12, uLong(m)) == Z_OK && ol == payload.size() && std::equal(payload.begin(), payload.end(), o.begin()); }
    REQUIRE(ok, "bytes of a compressed array", in());
  }
  binary::write_value(s, I32(0x1234567), sw); Read<T> q; binary::read_array(s, q, z, sw); REQUIRE(same(q, keep), "array read back", in()); I32 tail = 0; binary::read_value(s, tail, sw); REQUIRE(tail == 0x1234567, "reads exactly what was written", in());
  REQUIRE(same(binary::swap_bytes(binary::swap_bytes(a, sw), sw), keep), "array swapped twice", in());
}
static void text(Rng& r, bool sw) {
  begin_case(); std::string t; int n = r(0, 3) ? r(0, 20) : r(0, 3000); for (int i = 0; i < n; ++i) t += char(r(0, 255)); std::stringstream s; binary::write(s, t, sw); auto b = bytes(s.str()); auto w = raw(I32(n), sw); w.insert(w.end(), t.begin(), t.end());
  REQUIRE(b == w, "bytes of a string", "length " << n << " swapped=" << sw); std::string q = "old"; binary::read(s, q, sw); REQUIRE(q == t, "string read back", "length " << n << " swapped=" << sw);
}
static void compare(Mesh& a, Mesh& b, std::string const& in) {
  REQUIRE(a.family() == b.family() && a.dim() == b.dim(), "family and dimension", in); if (a.dim() != b.dim()) return;
  REQUIRE(a.parting() == b.parting() && a.nghost_layers() == b.nghost_layers(), "partitioning", in); REQUIRE(a.nverts() == b.nverts(), "vertices", in);
  for (int d = 0; d <= a.dim(); ++d) {
    if (d) { auto x = a.ask_down(d, d - 1), y = b.ask_down(d, d - 1); REQUIRE(same(x.ab2b, y.ab2b) && (d == 1 || same(x.codes, y.codes)), "connectivity of dimension " + std::to_string(d), in); }
    REQUIRE(a.ntags(d) == b.ntags(d), "number of tags of dimension " + std::to_string(d), in); if (a.ntags(d) != b.ntags(d)) continue;
    for (int i = 0; i < a.ntags(d); ++i) {
      auto x = a.get_tag(d, i), y = b.get_tag(d, i); bool ok = x->name() == y->name() && x->ncomps() == y->ncomps() && x->type() == y->type(); REQUIRE(ok, "tag", in << " dim " << d << " tag " << i << " " << x->name() << " / " << y->name()); if (!ok) continue;
      bool v = false; switch (x->type()) { case OMEGA_H_I8: v = same(as<I8>(x)->array(), as<I8>(y)->array()); break; case OMEGA_H_I32: v = same(as<I32>(x)->array(), as<I32>(y)->array()); break; case OMEGA_H_I64: v = same(as<I64>(x)->array(), as<I64>(y)->array()); break; case OMEGA_H_F64: v = same(as<Real>(x)->array(), as<Real>(y)->array()); break; }
      REQUIRE(v, "tag values", in << " dim " << d << " tag " << x->name());
    }
    if (a.comm()->size() > 1) { auto x = a.ask_owners(d), y = b.ask_owners(d); REQUIRE(same(x.ranks, y.ranks) && same(x.idxs, y.idxs), "owners of dimension " + std::to_string(d), in); }
  }
  REQUIRE(a.class_sets.size() == b.class_sets.size(), "number of classification sets", in);
  for (auto& s : a.class_sets) { auto it = b.class_sets.find(s.first); bool ok = it != b.class_sets.end() && it->second.size() == s.second.size(); if (ok) for (size_t i = 0; i < s.second.size(); ++i) ok = ok && s.second[i].dim == it->second[i].dim && s.second[i].id == it->second[i].id; REQUIRE(ok, "classification set", in << " set " << s.first << " of " << s.second.size()); }
  REQUIRE(a.has_any_parents() == b.has_any_parents(), "parents present", in); if (a.has_any_parents() && b.has_any_parents()) for (int d = 0; d <= a.dim(); ++d) { auto x = a.ask_parents(d), y = b.ask_parents(d); REQUIRE(same(x.parent_idx, y.parent_idx) && same(x.codes, y.codes), "parents of dimension " + std::to_string(d), in); }
  auto p = a.rib_hints(), q = b.rib_hints(); bool ok = bool(p) == bool(q); if (ok && p) { ok = p->axes.size() == q->axes.size(); for (size_t i = 0; ok && i < p->axes.size(); ++i) for (int j = 0; j < 3; ++j) ok = ok && same(p->axes[i][j], q->axes[i][j]); } REQUIRE(ok, "bisection hints", in);
}
template <class T> static void add(Rng& r, Mesh& m, int d, std::string const& n, int w) { HostWrite<T> h(m.nents(d) * w); for (int i = 0; i < h.size(); ++i) h[i] = bits<T>(r); m.add_tag<T>(d, n, w, Read<T>(h.write())); }
static void mesh(Library* lib, Rng& r, int trial) {
  begin_case(); bool par = lib->world()->size() > 1; auto s = rand_spec(r, true); bool amr = !par && s.fam == OMEGA_H_HYPERCUBE && r(0, 1); Mesh m = par ? build_box(lib->world(), s.fam, 1., s.ny ? 1. : 0., s.nz ? 1. : 0., s.nx + 2, s.ny, s.nz) : (s.fam == OMEGA_H_SIMPLEX && r(0, 1) ? rough_mesh(lib, s, r) : make_mesh(lib, s));
  std::string in = s.str() + (amr ? " refined" : "") + " trial " + std::to_string(trial);
  if (amr) { auto mk = rand_marks(r, m.nelems()); mk[0] = 1; TransferOpts o; amr::refine(&m, Bytes(arr(mk)), o); }
  if (par && !amr) { int k = r(0, 2); if (k == 1 && s.fam == OMEGA_H_SIMPLEX) m.set_parting(OMEGA_H_GHOSTED, r(1, 2), false); if (k == 2) m.set_parting(OMEGA_H_VERT_BASED); }
  Rng c(r.next() + uint64_t(lib->world()->rank()));
  for (int d = 0; d <= m.dim(); ++d) for (int k = r(0, 4); k > 0; --k) { std::string n = std::string(r(0, 5) ? "t" : "a long name for a tag, with blanks ") + std::to_string(k); int w = r(0, 6) ? r(1, 7) : r(1, 127); switch (r(0, 3)) { case 0: add<I8>(c, m, d, n, w); break; case 1: add<I32>(c, m, d, n, w); break; case 2: add<I64>(c, m, d, n, w); break; default: add<Real>(c, m, d, n, w); } }
  for (int k = r(0, 3); k > 0; --k) { auto& v = m.class_sets["set" + std::to_string(r(0, 99))]; for (int j = r(0, 3); j > 0; --j) v.push_back(ClassPair{Int(r(0, 3)), LO(r(-5, 1 << 30))}); }
  if (r(0, 1)) { auto h = std::make_shared<inertia::Rib>(); for (int k = r(0, 3); k > 0; --k) { Vector<3> a; for (int j = 0; j < 3; ++j) a[j] = bits<Real>(r); h->axes.push_back(a); } m.set_rib_hints(h); }
  { std::stringstream st; binary::write(st, &m); binary::write_value(st, I32(77), false); Mesh q(lib); q.set_comm(m.comm()); binary::read(st, &q, binary::latest_version); compare(m, q, in + " (stream)"); I32 t = 0; binary::read_value(st, t, false); REQUIRE(t == 77, "reads exactly what was written", in); }
  if (trial % 4 == 0) { filesystem::path p("mesh" + std::to_string(trial) + ".osh"); binary::write(p, &m); Mesh q(lib); int n = binary::read(p, lib->world(), &q, trial % 8 == 0); REQUIRE(n == lib->world()->size(), "number of parts", in); compare(m, q, in + " (file)"); REQUIRE(binary::read_version(p, lib->world()) == binary::latest_version && binary::read_nparts(p, lib->world()) == n, "version and parts of the file", in); }
}
int main(int argc, char** argv) {
  setup(argc, argv); Library lib(&argc, &argv); Rng r(g_seed); int N = g_thorough ? 20 : 1; bool par = lib.world()->size() > 1;
  if (!par) {
    REQUIRE(is_little_endian_cpu() == (raw(std::uint16_t(1), false)[0] == 1), "byte order of this machine", "");
    for (int i = 0; i < 200 * N; ++i) for (int sw = 0; sw < 2; ++sw) { value<I8>(r, sw); value<I32>(r, sw); value<I64>(r, sw); value<Real>(r, sw); }
    for (int i = 0; i < 40 * N; ++i) for (int z = 0; z < 2; ++z) for (int sw = 0; sw < 2; ++sw) { int n = i < 4 ? i : i == 5 ? 70000 : r(0, 500); array<I8>(r, n, z, sw); array<I32>(r, n, z, sw); array<I64>(r, n, z, sw); array<Real>(r, n, z, sw); }
    for (int i = 0; i < 60 * N; ++i) for (int sw = 0; sw < 2; ++sw) text(r, sw);
  }
  for (int i = 0; i < (par ? 80 : 60) * N; ++i) mesh(&lib, r, i);
  return finish();
}
