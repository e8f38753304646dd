#include "common.hpp"
#include <Omega_h_linpart.hpp>
#include <Omega_h_comm.hpp>
#include <Omega_h_dist.hpp>
using namespace Omega_h;
static void check(GO total, I32 n, std::vector<GO> const& g) {
  begin_case();
  std::ostringstream in; in << "total=" << total << " ranks=" << n << " globals=" << str(g);
  auto rm = globals_to_linear_owners(arr(g), total, n); auto ranks = vec(rm.ranks), idxs = vec(rm.idxs);
  REQUIRE(ranks.size() == g.size() && idxs.size() == g.size(), "globals_to_linear_owners size", in.str());
  GO q = total / n, r = total % n;
  for (size_t i = 0; i < g.size(); ++i) {
    GO k = ranks[i], l = idxs[i];
    REQUIRE(k >= 0 && k < n, "rank in range", in.str());
    REQUIRE(l >= 0 && l < linear_partition_size(total, n, I32(k)), "index within its part", in.str() << " at " << i);
    GO start = k * q + std::min(k, r);
    REQUIRE(start + l == g[i], "rank and index give back the number", in.str() << " at " << i);
  }
}
int main(int argc, char** argv) {
  setup(argc, argv); Library lib(&argc, &argv); auto comm = lib.world(); Rng r(g_seed);
  for (GO t = 0; t <= 40; ++t) for (I32 n = 1; n <= 45; ++n) {
    std::vector<GO> g; for (GO i = 0; i < t; ++i) g.push_back(i); check(t, n, g);
    GO sum = 0, lo = 1 << 30, hi = 0; for (I32 k = 0; k < n; ++k) { GO s = linear_partition_size(t, n, k); sum += s; lo = std::min(lo, s); hi = std::max(hi, s); }
    REQUIRE(sum == t && hi - lo <= 1, "linear_partition_size tiles", "total=" << t << " ranks=" << n);
  }
  for (int k = 0; k < (g_thorough ? 20000 : 2000); ++k) {
    I32 n = r(1, 1 << r(0, 20)); GO t = GO(r.next() % (uint64_t(n) << r(0, 30))); if (t / n >= 2147483646) continue;
    std::vector<GO> g; for (int i = 0; t && i < 20; ++i) g.push_back(GO(r.next() % uint64_t(t))); if (t) { g.push_back(0); g.push_back(t - 1); GO sp = (t / n + 1) * (t % n); for (GO d = -2; d < 2; ++d) if (sp + d >= 0 && sp + d < t) g.push_back(sp + d); } check(t, n, g);
  }
  // across ranks
  for (int k = 0; k < 30; ++k) {
    begin_case(); int np = comm->size(), me = comm->rank(); Rng c(g_seed * 100 + uint64_t(k)); GO t = k == 0 ? 0 : c(1, 4 * np);
    std::vector<GO> mine; for (GO i = 0; i < t; ++i) { for (int p = 0; p < np; ++p) { int has = c(0, 2) == 0 || (p == int(i) % np); if (has && p == me) mine.push_back(i); } }
    std::ostringstream in; in << "np=" << np << " rank=" << me << " globals=" << str(mine);
    REQUIRE(find_total_globals(comm, arr(mine)) == t, "find_total_globals", in.str());
    auto d = copies_to_linear_owners(comm, arr(mine));
    auto at = d.exch(Read<GO>(arr(mine)), 1); auto roots = vec(at);
    GO q = t / np, rem = t % np, start = me * q + std::min(GO(me), rem);
    // entries arrive grouped by item on the receiving side
    auto fan = d.invert().roots2items(); auto ro = vec(LOs(fan));
    REQUIRE(GO(d.ndests()) == q + (me < rem), "part size on the destination", in.str());
    for (size_t i = 0; i + 1 < ro.size(); ++i) { REQUIRE(ro[i] < ro[i + 1], "every number reaches its owner", in.str()); for (LO j = ro[i]; j < ro[i + 1]; ++j) REQUIRE(j < LO(roots.size()), "item count", in.str()); }
    REQUIRE(GO(comm->allreduce(GO(mine.size()), OMEGA_H_SUM)) == comm->allreduce(GO(roots.size()), OMEGA_H_SUM), "number of copies delivered", in.str());
    (void)start;
  }
  return finish();
}
