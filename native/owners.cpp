// P17: owners and exchange plans.  Every rank draws the same description of the whole run, so each knows what all others hold.
#include "common.hpp"
#include <Omega_h_build.hpp>
#include <Omega_h_comm.hpp>
#include <Omega_h_dist.hpp>
#include <Omega_h_globals.hpp>
#include <Omega_h_linpart.hpp>
#include <Omega_h_mesh.hpp>
#include <Omega_h_owners.hpp>
#include "meshes.hpp"
#include <chrono>
#include <thread>
using namespace Omega_h; using std::vector; using std::string;
static int NP, ME; static CommPtr W;
struct Ref { int p, i; bool operator<(Ref const& o) const { return p != o.p ? p < o.p : i < o.i; } bool operator==(Ref const& o) const { return p == o.p && i == o.i; } };
// items of each rank refer to roots of any rank
struct World { vector<int> nroots; vector<vector<Ref>> items; string s() const { std::ostringstream o; o << "rank " << ME << " of " << NP << "; roots " << str(nroots) << "; items"; for (auto& v : items) { o << " |"; for (auto& r : v) o << " " << r.p << ":" << r.i; } return o.str().substr(0, 1500); } };
template <class T> static T val(uint64_t seed, int p, int i, int c) { Rng r(seed * 7919 + uint64_t(p) * 104729 + uint64_t(i) * 31 + uint64_t(c) * 1000003); return rand_val<T>(r); }
template <class T> static Read<T> data(uint64_t seed, int p, int n, int w) { vector<T> v(size_t(n) * size_t(w)); for (int i = 0; i < n; ++i) for (int c = 0; c < w; ++c) v[size_t(i * w + c)] = val<T>(seed, p, i, c); return arr(v); }
template <class T> static vector<T> row(vector<T> const& v, int i, int w) { return vector<T>(v.begin() + i * w, v.begin() + (i + 1) * w); }
static Remotes refs(vector<Ref> const& v) { vector<int> a, b; for (auto& r : v) { a.push_back(r.p); b.push_back(r.i); } return Remotes(arr(a), arr(b)); }
static World draw(Rng& r) {
  World w; int mode = r(0, 4); for (int p = 0; p < NP; ++p) w.nroots.push_back(mode == 1 && p ? 0 : r(0, 3) ? r(0, 12) : 0); vector<int> have; for (int p = 0; p < NP; ++p) if (w.nroots[size_t(p)]) have.push_back(p); if (have.empty()) { w.nroots[0] = 3; have.push_back(0); }
  for (int p = 0; p < NP; ++p) { vector<Ref> v; int n = r(0, 4) ? r(0, 25) : 0; if (mode == 2 && p != NP - 1) n = 0; for (int i = 0; i < n; ++i) { int q = have[size_t(r(0, int(have.size()) - 1))]; if (mode == 3 && w.nroots[size_t(p)]) q = p; v.push_back({q, r(0, 3) ? r(0, w.nroots[size_t(q)] - 1) : 0}); } w.items.push_back(v); }
  return w;
}
template <class T> static void typed(World const& W_, Dist d, Rng& r) {
  int w = r(1, 5); uint64_t s = r.next() % 100000; auto& mine = W_.items[size_t(ME)]; int n = int(mine.size()), nr = W_.nroots[size_t(ME)]; string in = W_.s() + " width " + std::to_string(w);
  auto inv = d.invert(); auto off = vec(inv.roots2items());
  // owner to copies
  for (int how = 0; how < 3; ++how) { auto got = vec(how == 0 ? inv.exch(data<T>(s, ME, nr, w), w) : how == 1 ? inv.iexch(data<T>(s, ME, nr, w), w).get() : d.invert().invert().invert().exch(data<T>(s, ME, nr, w), w)); bool ok = int(got.size()) == n * w; for (int i = 0; ok && i < n; ++i) for (int c = 0; c < w; ++c) ok = ok && got[size_t(i * w + c)] == val<T>(s, mine[size_t(i)].p, mine[size_t(i)].i, c); REQUIRE(ok, string("every copy gets the value of its owner") + (how == 1 ? " (iexch)" : how == 2 ? " (inverted three times)" : ""), in << " got " << str(got)); }
  // copies to owner: the rows of each root
  vector<vector<vector<T>>> want(static_cast<size_t>(nr)); for (int p = 0; p < NP; ++p) { auto& v = W_.items[size_t(p)]; for (int i = 0; i < int(v.size()); ++i) if (v[size_t(i)].p == ME) { vector<T> x; for (int c = 0; c < w; ++c) x.push_back(val<T>(s, p, i, c)); want[size_t(v[size_t(i)].i)].push_back(x); } }
  auto mydata = data<T>(s, ME, n, w); REQUIRE(int(off.size()) == nr + 1, "one fan per root", in);
  for (int how = 0; how < 3; ++how) { auto got = vec(how == 0 ? d.exch(mydata, w) : how == 1 ? d.iexch(mydata, w).get() : inv.invert().exch(mydata, w)); bool ok = off.front() == 0 && int(got.size()) == off.back() * w; for (int j = 0; ok && j < nr; ++j) { vector<vector<T>> g; for (int k = off[size_t(j)]; k < off[size_t(j + 1)]; ++k) g.push_back(row(got, k, w)); auto x = want[size_t(j)]; std::sort(g.begin(), g.end()); std::sort(x.begin(), x.end()); ok = g == x; } REQUIRE(ok, string("every owner gets each value of its copies once") + (how == 1 ? " (iexch)" : how == 2 ? " (inverted twice)" : ""), in << " got " << str(got)); }
  for (auto op : {OMEGA_H_SUM, OMEGA_H_MIN, OMEGA_H_MAX}) { auto got = vec(d.exch_reduce(mydata, w, op)); bool ok = int(got.size()) == nr * w; for (int j = 0; ok && j < nr; ++j) for (int c = 0; c < w; ++c) { auto& x = want[size_t(j)]; if (x.empty()) continue; T a = op == OMEGA_H_SUM ? T(0) : x[0][size_t(c)]; for (auto& y : x) a = op == OMEGA_H_SUM ? T(a + y[size_t(c)]) : op == OMEGA_H_MIN ? std::min(a, y[size_t(c)]) : std::max(a, y[size_t(c)]); ok = ok && got[size_t(j * w + c)] == a; } REQUIRE(ok, "reduction of copies", in << " op " << int(op) << " got " << str(got)); }
  bool all = true; for (auto& x : want) all = all && !x.empty(); all = W->reduce_and(all);
  if (all) { auto got = vec(reduce_data_to_owners(mydata, d, w)); bool ok = int(got.size()) == nr * w; for (int j = 0; ok && j < nr; ++j) { auto g = row(got, j, w); ok = std::count(want[size_t(j)].begin(), want[size_t(j)].end(), g) > 0; } REQUIRE(ok, "data of owners from copies", in << " got " << str(got)); }
}
static void plan(Rng& r) {
  begin_case(); auto w = draw(r); auto& mine = w.items[size_t(ME)]; auto in = w.s(); Dist d; 
  if (r(0, 1)) d = Dist(W, refs(mine), w.nroots[size_t(ME)]); else { auto f = refs(mine); d.set_parent_comm(W); d.set_dest_ranks(f.ranks); d.set_dest_idxs(f.idxs, w.nroots[size_t(ME)]); }
  auto dst = d.items2dests(); auto a = vec(dst.ranks), b = vec(dst.idxs); bool ok = a.size() == mine.size() && b.size() == mine.size(); for (size_t i = 0; ok && i < mine.size(); ++i) ok = a[i] == mine[i].p && b[i] == mine[i].i; REQUIRE(ok, "where the items go", in << " got " << str(a) << str(b));
  REQUIRE(d.nitems() == int(mine.size()) && d.nsrcs() == int(mine.size()) && d.ndests() == w.nroots[size_t(ME)] && d.invert().nroots() == w.nroots[size_t(ME)], "counts of the plan", in);
  typed<I8>(w, d, r); typed<I32>(w, d, r); typed<I64>(w, d, r); typed<Real>(w, d, r);
  { Dist c(d), e; e = d; auto x = vec(c.exch(data<I32>(5, ME, d.nsrcs(), 1), 1)), y = vec(e.exch(data<I32>(5, ME, d.nsrcs(), 1), 1)), z = vec(d.exch(data<I32>(5, ME, d.nsrcs(), 1), 1)); REQUIRE(x == z && y == z, "copies of a plan", in); }
  { Dist c(d); c.change_comm(W->dup()); typed<I32>(w, c, r); }
  { int n = int(mine.size()); Remotes own(data<I32>(11, ME, w.nroots[size_t(ME)], 1), data<I32>(12, ME, w.nroots[size_t(ME)], 1)); auto g = d.invert().exch(own, 1); auto x = vec(g.ranks), y = vec(g.idxs); bool ok = int(x.size()) == n && int(y.size()) == n; for (int i = 0; ok && i < n; ++i) ok = x[size_t(i)] == val<I32>(11, mine[size_t(i)].p, mine[size_t(i)].i, 0) && y[size_t(i)] == val<I32>(12, mine[size_t(i)].p, mine[size_t(i)].i, 0); REQUIRE(ok, "owner references through a plan", in); }
  // variable-sized: the number of data of a root is the same at all its copies; roots are items here
  // sources with several items
  { vector<vector<int>> fans; vector<vector<Ref>> its; for (int p = 0; p < NP; ++p) { vector<int> f{0}; vector<Ref> v; int n = r(0, 6); for (int i = 0; i < n; ++i) { int k = r(0, 3); f.push_back(f.back() + k); for (int j = 0; j < k; ++j) v.push_back({r(0, NP - 1), 0}); } fans.push_back(f); its.push_back(v); }
    Dist e; e.set_parent_comm(W); e.set_dest_ranks(refs(its[size_t(ME)]).ranks); e.set_roots2items(arr(fans[size_t(ME)])); int n = int(fans[size_t(ME)].size()) - 1; auto got = vec(e.exch(data<I64>(77, ME, n, 2), 2)); vector<vector<I64>> x, g; for (int p = 0; p < NP; ++p) for (int i = 0; i + 1 < int(fans[size_t(p)].size()); ++i) for (int k = fans[size_t(p)][size_t(i)]; k < fans[size_t(p)][size_t(i + 1)]; ++k) if (its[size_t(p)][size_t(k)].p == ME) x.push_back({val<I64>(77, p, i, 0), val<I64>(77, p, i, 1)}); for (size_t k = 0; 2 * k < got.size(); ++k) g.push_back(row(got, int(k), 2)); std::sort(x.begin(), x.end()); std::sort(g.begin(), g.end()); REQUIRE(x == g && e.nsrcs() == n, "a source sends to each of its items", "rank " << ME << " fan " << str(fans[size_t(ME)]) << " got " << str(got)); }
  // items arranged by global number
  { vector<vector<std::pair<int, I64>>> its; for (int p = 0; p < NP; ++p) { vector<std::pair<int, I64>> v; int n = r(0, 20); for (int i = 0; i < n; ++i) v.push_back({r(0, NP - 1), I64(r(0, 4) ? r(0, 50) : r(0, 1 << 30)) * (r(0, 3) ? 1 : 1000003)}); its.push_back(v); }
    vector<int> rk; vector<I64> g; for (auto& x : its[size_t(ME)]) { rk.push_back(x.first); g.push_back(x.second); } Dist e; e.set_parent_comm(W); e.set_dest_ranks(arr(rk)); e.set_dest_globals(arr(g)); auto got = vec(e.exch(Read<I64>(arr(g)), 1)); vector<I64> x; for (auto& v : its) for (auto& y : v) if (y.first == ME) x.push_back(y.second); std::sort(x.begin(), x.end()); REQUIRE(got == x, "items arrive in the order of their global numbers", "rank " << ME << " got " << str(got) << " wanted " << str(x)); auto back = vec(e.invert().exch(Read<I64>(arr(got)), 1)); REQUIRE(back == g, "and go back to where they came from", "rank " << ME << " sent " << str(g) << " got " << str(back)); }
}
// entities with copies on some ranks, in any order on each
struct Ents { vector<vector<int>> held; vector<Ref> old; vector<int> nold; int at(int p, int e) const { auto& h = held[size_t(p)]; for (size_t i = 0; i < h.size(); ++i) if (h[i] == e) return int(i); return -1; } string s() const { std::ostringstream o; o << "rank " << ME << " of " << NP << "; entities held"; for (auto& h : held) o << " " << str(h); return o.str().substr(0, 1500); } };
static Ents ents(Rng& r, bool oldp) {
  Ents E; int n = r(0, 30), mode = r(0, 3); E.held.resize(size_t(NP)); E.nold.assign(size_t(NP), 0); for (int e = 0; e < n; ++e) { int any = r(0, NP - 1); for (int p = 0; p < NP; ++p) { bool h = mode == 0 ? true : mode == 1 ? r(0, 1) == 0 : r(0, 3) == 0; if (mode == 2 && p == NP / 2) h = false; if (h || p == any) E.held[size_t(p)].push_back(e); } if (oldp) { int q = r(0, NP - 1); E.old.push_back({q, E.nold[size_t(q)]++}); } }
  for (auto& h : E.held) for (int i = int(h.size()) - 1; i > 0; --i) std::swap(h[size_t(i)], h[size_t(r(0, i))]); return E;
}
static void owners(Rng& r, bool linear) {
  begin_case(); auto E = ents(r, true); int n = int(E.old.size()); auto& mine = E.held[size_t(ME)]; auto in = E.s(); vector<int> given(static_cast<size_t>(n)); vector<I64> key(static_cast<size_t>(n)); for (int e = 0; e < n; ++e) { vector<int> hs; for (int p = 0; p < NP; ++p) if (E.at(p, e) >= 0) hs.push_back(p); given[size_t(e)] = hs[size_t(r(0, int(hs.size()) - 1))]; key[size_t(e)] = e; }
  for (int i = n - 1; i > 0; --i) std::swap(key[size_t(i)], key[size_t(r(0, i))]);
  vector<Ref> o; vector<I64> g; vector<int> gr; for (int e : mine) { o.push_back(E.old[size_t(e)]); g.push_back(key[size_t(e)]); gr.push_back(given[size_t(e)]); }
  for (int k = 0; k < 2; ++k) { Read<I32> ranks; if (k) ranks = arr(gr); Remotes got; if (linear) got = owners_from_globals(W, arr(g), ranks); else { Dist d(W, refs(o), E.nold[size_t(ME)]); got = update_ownership(d, ranks); }
    auto a = vec(got.ranks), b = vec(got.idxs); bool ok = a.size() == mine.size() && b.size() == mine.size(); std::ostringstream w; for (size_t i = 0; i < mine.size(); ++i) { int e = mine[i], best = -1; if (k) best = given[size_t(e)]; else for (int p = 0; p < NP; ++p) if (E.at(p, e) >= 0 && (best < 0 || E.held[size_t(p)].size() < E.held[size_t(best)].size())) best = p; int ix = E.at(best, e); w << best << ":" << ix << " "; ok = ok && a[i] == best && b[i] == ix; } REQUIRE(ok, string(linear ? "owners from global numbers" : "owners") + (k ? ", ranks given" : ""), in << " got " << str(a) << str(b) << " wanted " << w.str()); }
}
// a caller may poll before it asks for the result
static void polling(Rng& r) {
  begin_case(); auto w = draw(r); auto& mine = w.items[size_t(ME)]; Dist d(W, refs(mine), w.nroots[size_t(ME)]); int late = r(0, NP - 1), n = int(mine.size()); bool over = false; W->barrier(); if (ME == late && NP > 1) std::this_thread::sleep_for(std::chrono::milliseconds(3));
  auto f = d.invert().iexch(data<I32>(3, ME, w.nroots[size_t(ME)], 40), 40); auto t0 = std::chrono::steady_clock::now(); while (!(over = f.completed()) && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(2)) {}
  REQUIRE(over, "an exchange whose messages all arrived is completed", w.s()); auto got = vec(f.get()); bool ok = int(got.size()) == n * 40; for (int i = 0; ok && i < n; ++i) for (int c = 0; c < 40; ++c) ok = ok && got[size_t(i * 40 + c)] == val<I32>(3, mine[size_t(i)].p, mine[size_t(i)].i, c); REQUIRE(ok, "every copy has its value once the exchange is completed", w.s()); W->barrier();
}
static void variable(Rng& r) {
  begin_case(); auto E = ents(r, false); int n = 0; for (auto& h : E.held) for (int e : h) n = std::max(n, e + 1); vector<int> own(static_cast<size_t>(n)), len(static_cast<size_t>(n)); for (int e = 0; e < n; ++e) { vector<int> hs; for (int p = 0; p < NP; ++p) if (E.at(p, e) >= 0) hs.push_back(p); own[size_t(e)] = hs[size_t(r(0, int(hs.size()) - 1))]; len[size_t(e)] = r(0, 3); }
  auto& mine = E.held[size_t(ME)]; vector<Ref> o; vector<int> off{0}; vector<I64> d0, want; for (int e : mine) { o.push_back({own[size_t(e)], E.at(own[size_t(e)], e)}); off.push_back(off.back() + len[size_t(e)]); for (int k = 0; k < len[size_t(e)]; ++k) { d0.push_back(own[size_t(e)] == ME ? I64(e) * 100 + k : -1); want.push_back(I64(e) * 100 + k); } }
  Dist d(W, refs(o), int(mine.size())); auto v = create_dist_for_variable_sized(d, arr(off)); auto got = vec(v.invert().exch(Read<I64>(arr(d0)), 1)); REQUIRE(got == want, "variable-sized data of the owners", E.s() << " lengths " << str(len) << " got " << str(got));
}
static vector<vector<I64>> gather(vector<I64> const& v) {
  vector<vector<I64>> r; for (int p = 0; p < NP; ++p) { int n = W->allreduce(I32(p == ME ? int(v.size()) : 0), OMEGA_H_SUM); vector<I64> x; for (int i = 0; i < n; ++i) x.push_back(W->allreduce(I64(p == ME ? v[size_t(i)] : 0), OMEGA_H_SUM)); r.push_back(x); } return r;
}
static void mesh(Library* lib, Rng& r) {
  begin_case(); int dim = r(1, 3); Mesh m = build_box(W, r(0, 1) ? OMEGA_H_SIMPLEX : OMEGA_H_HYPERCUBE, 1., dim > 1 ? 1. : 0., dim > 2 ? 1. : 0., r(NP, NP + 3), dim > 1 ? r(1, 2) : 0, dim > 2 ? r(1, 2) : 0); if (NP > 1 && r(0, 2) == 0 && m.family() == OMEGA_H_SIMPLEX) m.set_parting(OMEGA_H_GHOSTED, 1, false); (void)lib;
  int d = r(0, dim); auto g = gather(vec(m.globals(d))); int n = m.nents(d), w = r(1, 3); std::ostringstream in; in << "rank " << ME << " of " << NP << " box of dimension " << dim << " parting " << int(m.parting()) << ", entities of dimension " << d;
  for (int round = 0; round < 3; ++round) {
    std::map<I64, vector<Ref>> cop; for (int p = 0; p < NP; ++p) for (size_t i = 0; i < g[size_t(p)].size(); ++i) cop[g[size_t(p)][i]].push_back({p, int(i)});
    std::map<I64, Ref> own; if (round == 0) { auto a = m.ask_owners(d); auto rk = vec(a.ranks), ix = vec(a.idxs); for (int i = 0; i < n; ++i) own[g[size_t(ME)][size_t(i)]] = {rk[size_t(i)], ix[size_t(i)]}; }
    else { for (auto& c : cop) own[c.first] = c.second[size_t(r(0, int(c.second.size()) - 1))]; vector<Ref> o; for (I64 x : g[size_t(ME)]) o.push_back(own[x]); m.set_owners(d, refs(o)); }
    string what = in.str() + (round ? " with new owners" : "");
    for (int i = 0; i < n; ++i) { auto o = own[g[size_t(ME)][size_t(i)]]; bool held = o.i >= 0 && o.i < int(g[size_t(o.p)].size()) && g[size_t(o.p)][size_t(o.i)] == g[size_t(ME)][size_t(i)]; REQUIRE(held, "the owner is a copy of the same entity", what << " entity " << i); }
    uint64_t s = r.next() % 1000; auto my = data<I32>(s, ME, n, w); auto x = vec(m.sync_array(d, my, w)), y = vec(m.isync_array(d, my, w).get()); vector<I32> want; for (int i = 0; i < n; ++i) for (int c = 0; c < w; ++c) { auto o = own[g[size_t(ME)][size_t(i)]]; want.push_back(val<I32>(s, o.p, o.i, c)); } REQUIRE(x == want && y == want, "copies after synchronization", what << " got " << str(x) << " wanted " << str(want));
    { vector<int> sub; vector<I32> sd, sw; for (int i = 0; i < n; ++i) { auto h = g[size_t(ME)][size_t(i)] % 3; if (h == I64(s % 3)) continue; sub.push_back(i); for (int c = 0; c < w; ++c) { sd.push_back(val<I32>(s, ME, i, c)); sw.push_back(want[size_t(i * w + c)]); } } auto q = vec(m.sync_subset_array(d, Read<I32>(arr(sd)), LOs(arr(sub)), I32(-7), w)); REQUIRE(q == sw, "copies of a subset after synchronization", what << " got " << str(q)); }
    for (auto op : {OMEGA_H_SUM, OMEGA_H_MIN, OMEGA_H_MAX}) { auto q = vec(m.reduce_array(d, my, w, op)); bool ok = int(q.size()) == n * w; for (int i = 0; ok && i < n; ++i) if (own[g[size_t(ME)][size_t(i)]] == Ref{ME, i}) for (int c = 0; c < w; ++c) { bool first = true; I32 a = 0; for (auto& z : cop[g[size_t(ME)][size_t(i)]]) { I32 b = val<I32>(s, z.p, z.i, c); a = first ? b : op == OMEGA_H_SUM ? a + b : op == OMEGA_H_MIN ? std::min(a, b) : std::max(a, b); first = false; } ok = q[size_t(i * w + c)] == a; } REQUIRE(ok, "reduction over copies", what << " op " << int(op) << " got " << str(q)); }
    { auto q = vec(m.owned(d)); auto z = vec(m.owned_array(d, my, w)); vector<I32> zw; bool ok = int(q.size()) == n; for (int i = 0; i < n; ++i) { bool o = own[g[size_t(ME)][size_t(i)]].p == ME; ok = ok && q[size_t(i)] == I8(o); if (o) for (int c = 0; c < w; ++c) zw.push_back(val<I32>(s, ME, i, c)); } REQUIRE(ok && z == zw, "owned entities", what); REQUIRE(m.nglobal_ents(d) == GO(cop.size()), "number of entities", what); }
    { auto q = gather(vec(globals_from_owners(&m, d))); I64 next = 0; std::map<I64, I64> num; bool ok = true; for (int p = 0; p < NP; ++p) for (size_t i = 0; i < g[size_t(p)].size(); ++i) { auto o = own.find(g[size_t(p)][i]); if (o != own.end() && o->second == Ref{p, int(i)}) num[g[size_t(p)][i]] = next++; } if (round) for (int p = 0; p < NP; ++p) for (size_t i = 0; ok && i < g[size_t(p)].size(); ++i) ok = q[size_t(p)][i] == num[g[size_t(p)][i]]; std::map<I64, std::set<I64>> ids; std::set<I64> all; for (int p = 0; p < NP; ++p) for (size_t i = 0; i < g[size_t(p)].size(); ++i) { ids[g[size_t(p)][i]].insert(q[size_t(p)][i]); all.insert(q[size_t(p)][i]); } for (auto& y : ids) ok = ok && y.second.size() == 1; ok = ok && all.size() == cop.size() && (all.empty() || (*all.begin() == 0 && *all.rbegin() == I64(all.size()) - 1)); REQUIRE(ok, "numbers given out by owners", what << " got " << str(q[size_t(ME)])); }
  }
}
static void scans(Mesh& m, Rng& r) {
  begin_case(); vector<vector<int>> cnt; for (int p = 0; p < NP; ++p) { vector<int> v; for (int n = r(0, 3) ? r(0, 9) : 0; n > 0; --n) v.push_back(r(0, 5)); cnt.push_back(v); } I64 s = 0; for (int p = 0; p < ME; ++p) for (int x : cnt[size_t(p)]) s += x; vector<I64> want; vector<I8> c8; for (int x : cnt[size_t(ME)]) { want.push_back(s); s += x; c8.push_back(I8(x)); }
  REQUIRE(vec(rescan_globals(&m, Read<I32>(arr(cnt[size_t(ME)])))) == want, "numbers handed out by count", "rank " << ME << " counts " << str(cnt[size_t(ME)])); REQUIRE(vec(rescan_globals(&m, Read<I8>(arr(c8)))) == want, "numbers handed out by count (bytes)", "rank " << ME << " counts " << str(cnt[size_t(ME)]));
}
int main(int argc, char** argv) {
  setup(argc, argv); Library lib(&argc, &argv); W = lib.world(); NP = W->size(); ME = W->rank(); int N = g_thorough ? 10 : 1;
  for (int t = 0; t < 60 * N; ++t) { Rng r(g_seed * 1000003 + uint64_t(t)); plan(r); owners(r, false); owners(r, true); variable(r); if (t % 3 == 0) polling(r); }
  Mesh m(&lib); m.set_comm(W); for (int t = 0; t < 30 * N; ++t) { Rng r(g_seed * 77003 + uint64_t(t)); scans(m, r); }
  for (int t = 0; t < 12 * N; ++t) { Rng r(g_seed * 5003 + uint64_t(t)); mesh(&lib, r); }
  m = Mesh(); W.reset(); return finish();
}
