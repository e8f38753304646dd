// Shared by the oracles that run the real library: a contract is evaluated on
// concrete inputs; a "FAIL" line names the contract and the failing input.
#pragma once
#include <Omega_h_library.hpp>
#include <Omega_h_array.hpp>
#include <Omega_h_array_ops.hpp>
#include <Omega_h_for.hpp>
#include <Omega_h_map.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <sstream>
#include <iostream>
#include <numeric>
#include <functional>
#include <cmath>
namespace oh = Omega_h;
using oh::LO; using oh::I8; using oh::I32; using oh::I64; using oh::Real;
static long g_cases = 0; static int g_fails = 0;
static bool g_thorough = false; static uint64_t g_seed = 1;
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; ++i) next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int operator()(int lo, int hi) { return lo + int(next() % uint64_t(hi - lo + 1)); }  // inclusive
  double real() { return double(next() >> 11) / double(1ull << 53); }
  bool coin() { return next() & 1; }
};
template <class T> static std::string str(std::vector<T> const& v) {
  std::ostringstream o; o << "["; for (size_t i = 0; i < v.size() && i < 60; ++i) o << (i ? "," : "") << +v[i]; if (v.size() > 60) o << ",..."; o << "]"; return o.str();
}
template <class T> static std::vector<T> vec(oh::Read<T> a) { std::vector<T> r; if (!a.exists()) return r; oh::HostRead<T> h(a); for (LO i = 0; i < h.size(); ++i) r.push_back(h[i]); return r; }
template <class T> static std::vector<T> vec(oh::Write<T> a) { return vec(oh::Read<T>(a)); }
template <class T> static oh::Read<T> arr(std::vector<T> const& v) { oh::HostWrite<T> h(LO(v.size())); for (LO i = 0; i < LO(v.size()); ++i) h[i] = v[size_t(i)]; return oh::Read<T>(h.write()); }
template <class T> static oh::Write<T> warr(std::vector<T> const& v) { oh::HostWrite<T> h(LO(v.size())); for (LO i = 0; i < LO(v.size()); ++i) h[i] = v[size_t(i)]; return h.write(); }
static inline void fail_line(std::string const& what, std::string const& input) {
  if (g_fails++ < 12) { std::printf("FAIL %s | input: %s\n", what.c_str(), input.c_str()); std::fflush(stdout); }
}
#define REQUIRE(cond, what, input) do { if (!(cond)) fail_line(what, [&]{ std::ostringstream o_; o_ << input; return o_.str(); }()); } while (0)
static inline void begin_case() { ++g_cases; }
static inline void setup(int argc, char** argv) { g_thorough = argc > 1 && std::string(argv[1]) == "thorough"; g_seed = argc > 2 ? std::strtoull(argv[2], nullptr, 10) : 1; }
static inline int finish() { std::printf("CASES %ld\n", g_cases); std::fflush(stdout); return g_fails ? 3 : 0; }
template <class T> static T rand_val(Rng& r) { return T(int64_t(r.next() % 200) - 100); }
template <> inline double rand_val<double>(Rng& r) { return double(int64_t(r.next() % 2000) - 1000) / 8.0; }
