#include "common.hpp"
#include <Omega_h_shared_alloc.hpp>
#include <Omega_h_malloc.hpp>
#include <Omega_h_pool.hpp>
using namespace Omega_h;
using std::vector;
// live model: handle slots -> block number (-1 empty)
struct Model { vector<int> slot; std::map<int, int> count; std::map<int, std::pair<Alloc*, size_t>> blk; vector<int> order; };
static std::string log_; 
static void check(Model& m, vector<SharedAlloc>& h, bool track) {
  for (size_t i = 0; i < h.size(); ++i) { int b = m.slot[i];
    REQUIRE((h[i].alloc == nullptr) == (b < 0), "empty handles are empty", log_);
    if (b >= 0) { REQUIRE(h[i].alloc == m.blk[b].first && h[i].size() == m.blk[b].second && h[i].data() == h[i].alloc->ptr, "a handle refers to its storage", log_); REQUIRE(h[i].alloc->use_count == m.count[b], "use count is the number of handles", log_ << " count=" << h[i].alloc->use_count << " handles=" << m.count[b]);
      auto p = static_cast<unsigned char*>(h[i].data()); for (size_t k = 0; k < h[i].size(); ++k) if (p[k] != (unsigned char)(b * 7 + 1)) { REQUIRE(false, "storage in use keeps its content", log_); break; } } }
  if (track) { vector<Alloc*> e, f, g; size_t tot = 0; for (int b : m.order) { e.push_back(m.blk[b].first); tot += m.blk[b].second; }
    for (auto a = global_allocs->first; a && f.size() < 1000; a = a->next) f.push_back(a);
    for (auto a = global_allocs->last; a && g.size() < 1000; a = a->prev) g.push_back(a);
    std::reverse(g.begin(), g.end());
    REQUIRE(f == e, "the tracked list is the live allocations", log_ << " listed=" << f.size() << " live=" << e.size()); REQUIRE(g == e, "the tracked list read backwards is the live allocations", log_ << " listed=" << g.size() << " live=" << e.size());
    REQUIRE(global_allocs->total_bytes == tot, "tracked total", log_ << " total=" << global_allocs->total_bytes << " live=" << tot); REQUIRE(global_allocs->high_water_bytes >= tot, "high water", log_); }
}
static size_t g_high;
static void history(Rng& r, bool track, bool pool) {
  begin_case(); std::ostringstream lg; lg << (track ? "tracking" : "no tracking") << (pool ? " pooling" : "") << ":"; log_ = lg.str();
  int S = r(1, 5); size_t live = 0; size_t high = track ? global_allocs->high_water_bytes : 0;
  { vector<SharedAlloc> h; h.resize(size_t(S)); Model m; m.slot.assign(size_t(S), -1); int nb = 0; int steps = r(5, 25);
    auto drop = [&](int b) { if (b >= 0 && --m.count[b] == 0) { live -= m.blk[b].second; m.order.erase(std::find(m.order.begin(), m.order.end(), b)); m.count.erase(b); m.blk.erase(b); } };
    for (int t = 0; t < steps; ++t) { int i = r(0, S - 1), j = r(0, 2) ? r(0, S - 1) : i; int op = r(0, 5); lg << " "; 
      switch (op) {
        case 0: case 1: { size_t n = size_t(r(0, 3) ? r(1, 70) : 0); lg << i << "=new(" << n << ")"; log_ = lg.str(); SharedAlloc s(n, "x"); int b = nb++; live += n; high = std::max(high, live); m.blk[b] = {s.alloc, n}; m.order.push_back(b); if (n) std::memset(s.data(), b * 7 + 1, n); h[size_t(i)] = std::move(s); drop(m.slot[size_t(i)]); m.slot[size_t(i)] = b; m.count[b] = 1; break; }
        case 2: { lg << i << "=copy(" << j << ")"; log_ = lg.str(); h[size_t(i)] = static_cast<SharedAlloc const&>(h[size_t(j)]); int b = m.slot[size_t(j)]; if (i != j) { if (b >= 0) m.count[b]++; drop(m.slot[size_t(i)]); m.slot[size_t(i)] = b; } break; }
        case 3: { lg << i << "=move(" << j << ")"; log_ = lg.str(); h[size_t(i)] = std::move(h[size_t(j)]); if (i != j) { int b = m.slot[size_t(j)]; drop(m.slot[size_t(i)]); m.slot[size_t(i)] = b; m.slot[size_t(j)] = -1; } break; }
        case 4: { lg << i << "=copied-temporary(" << j << ")"; log_ = lg.str(); SharedAlloc s(h[size_t(j)]); SharedAlloc u(std::move(s)); REQUIRE(s.alloc == nullptr && s.direct_ptr == nullptr, "a moved-from handle is empty", log_); h[size_t(i)] = u; int b = m.slot[size_t(j)]; if (i != j) { if (b >= 0) m.count[b]++; drop(m.slot[size_t(i)]); m.slot[size_t(i)] = b; } break; }
        default: { lg << "parallel-copy(" << i << ")"; log_ = lg.str(); if (m.slot[size_t(i)] >= 0) { entering_parallel = true; SharedAlloc s(h[size_t(i)]); entering_parallel = false; REQUIRE(s.size() == m.blk[m.slot[size_t(i)]].second && s.data() == h[size_t(i)].data(), "a parallel copy sees the storage", log_); SharedAlloc q(s); SharedAlloc z; z = q; REQUIRE(z.data() == h[size_t(i)].data(), "copies of parallel copies", log_); } } }
      check(m, h, track); }
  }
  if (track) { REQUIRE(global_allocs->first == nullptr && global_allocs->last == nullptr && global_allocs->total_bytes == 0, "everything is released when the last handle goes", log_ << " still listed bytes=" << global_allocs->total_bytes); REQUIRE(global_allocs->high_water_bytes == high, "high water mark", log_ << " mark=" << global_allocs->high_water_bytes << " expected=" << high); }
}
static std::map<void*, size_t> g_under; static bool g_bad = false; static int g_refuse = 0;
static void* umalloc(std::size_t n) { if (g_refuse > 0) { --g_refuse; return nullptr; } void* p = std::malloc(n); g_under[p] = n; return p; }
static void ufree(void* p, std::size_t n) { auto it = g_under.find(p); if (it == g_under.end() || it->second != n) { g_bad = true; return; } g_under.erase(it); std::free(p); }
static void pools(Rng& r) {
  begin_case(); std::ostringstream lg; lg << "pool:"; 
  { Pool p(umalloc, ufree); std::map<void*, std::pair<size_t, int>> live; vector<void*> ps; int id = 0;
    for (int t = 0; t < 60; ++t) {
      if (ps.empty() || r(0, 1)) { size_t n = size_t(r(0, 130)); g_refuse = r(0, 9) == 0 ? 1 : 0; int refused = g_refuse; void* q = allocate(p, n); g_refuse = 0; lg << " new(" << n << (refused ? ",refused once" : "") << ")"; 
        REQUIRE(!live.count(q), "a pooled block in use is not handed out again", lg.str()); auto it = g_under.find(q); REQUIRE(it != g_under.end() && it->second >= n, "a pooled block is large enough", lg.str());
        for (size_t k = 0; k < n; ++k) static_cast<unsigned char*>(q)[k] = (unsigned char)(id * 5 + 3); live[q] = {n, id++}; ps.push_back(q); }
      else { size_t i = size_t(r(0, int(ps.size()) - 1)); void* q = ps[i]; auto e = live[q]; bool same = true; for (size_t k = 0; k < e.first; ++k) same = same && static_cast<unsigned char*>(q)[k] == (unsigned char)(e.second * 5 + 3); lg << " del(" << e.first << ")"; REQUIRE(same, "pooled blocks in use do not overlap", lg.str()); deallocate(p, q, e.first); live.erase(q); ps.erase(ps.begin() + long(i)); }
      for (auto& e : live) REQUIRE(g_under.count(e.first), "a pooled block in use stays allocated", lg.str()); }
  }
  REQUIRE(g_under.empty() && !g_bad, "the pool returns every block once, with its size", lg.str() << " left=" << g_under.size()); for (auto& x : g_under) std::free(x.first); g_under.clear(); g_bad = false;
}
int main(int argc, char** argv) {
  setup(argc, argv); oh::Library lib(nullptr, nullptr); int N = g_thorough ? 20000 : 1500;
  for (int t = 0; t < N; ++t) { Rng r(g_seed * 1000003 + t); history(r, false, false); pools(r); }
  start_tracking_allocations();
  for (int t = 0; t < N; ++t) { Rng r(g_seed * 1000033 + t); history(r, true, false); global_allocs->high_water_bytes = 0; }
  { begin_case(); // arrays in use by other handles survive
    Write<LO> a(4, 7); Read<LO> b(a); a = Write<LO>(2, 1); REQUIRE(b.size() == 4 && b.get(3) == 7, "a Read keeps its storage when the Write is reassigned", "a=7,7,7,7"); auto& c = b; b = c; REQUIRE(b.get(0) == 7, "self-assignment of an array", "b=b"); }
  stop_tracking_allocations(&lib);
  enable_pooling(); for (int t = 0; t < N; ++t) { Rng r(g_seed * 1000037 + t); history(r, false, true); } disable_pooling();
  return finish();
}
