#include "common.hpp"
#include <Omega_h_base64.hpp>
#include <memory>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
static std::string const AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref(std::vector<unsigned char> const& d) {
  std::string o; for (size_t i = 0; i < d.size(); i += 3) {
    unsigned n = unsigned(std::min<size_t>(3, d.size() - i)), w = d[i] << 16; if (n > 1) w |= d[i + 1] << 8; if (n > 2) w |= d[i + 2];
    for (unsigned k = 0; k < 4; ++k) o += k <= n ? AL[(w >> (18 - 6 * k)) & 63] : '='; }
  return o;
}
static void trip(std::vector<unsigned char> const& d) {
  begin_case();
  std::vector<unsigned char> buf(d); auto s = oh::base64::encode(buf.data(), buf.size());
  std::ostringstream in; in << "bytes=" << str(d);
  REQUIRE(s.size() == oh::base64::encoded_size(d.size()), "announced length", in.str());
  REQUIRE(s == ref(d), "standard encoding", in.str() << " got " << s);
  REQUIRE(buf == d, "input untouched", in.str());
  std::vector<unsigned char> out(d.size() + 4, 0xA5); oh::base64::decode(s, out.data(), d.size());
  REQUIRE(std::equal(d.begin(), d.end(), out.begin()), "decode(encode(x)) == x", in.str());
  for (size_t i = d.size(); i < out.size(); ++i) REQUIRE(out[i] == 0xA5, "decode writes only the requested bytes", in.str());
  std::unique_ptr<unsigned char[]> ex(new unsigned char[d.size() ? d.size() : 1]); oh::base64::decode(s, ex.get(), d.size());
  // text followed by something else
  std::istringstream is(s + "\n<x>"); auto e = oh::base64::read_encoded(is); REQUIRE(e == s, "read_encoded stops at the first other character", in.str());
}
int main(int argc, char** argv) {
  setup(argc, argv); Rng r(g_seed);
  for (int a = 0; a < 256; ++a) trip({(unsigned char)a});
  for (int a = 0; a < 65536; a += g_thorough ? 1 : 7) trip({(unsigned char)(a >> 8), (unsigned char)a});
  for (int k = 0; k < (g_thorough ? 60000 : 6000); ++k) { std::vector<unsigned char> d(size_t(k < 200 ? k : r(0, 40))); for (auto& x : d) x = (unsigned char)r.next(); trip(d); }
  // other characters are rejected: the call must end in Omega_h::fail (abort)
  std::fflush(stdout);
  for (int pos = 0; pos < 4; ++pos) for (int c = 0; c < 256; ++c) {
    begin_case();
    bool ok = AL.find(char(c)) != std::string::npos && c != 0; if (c == '=') continue;
    pid_t p = fork();
    if (p == 0) { int z = open("/dev/null", O_WRONLY); dup2(z, 1); dup2(z, 2); std::string s = "QUJD"; s[size_t(pos)] = char(c); unsigned char o[3]; oh::base64::decode(s, o, 3); _exit(0); }
    int st; waitpid(p, &st, 0);
    bool accepted = WIFEXITED(st) && WEXITSTATUS(st) == 0, rejected = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
    REQUIRE(ok ? accepted : rejected, ok ? "alphabet character accepted" : "other character rejected", "character " << c << " at position " << pos << (accepted ? " accepted" : rejected ? " rejected" : " crashed"));
  }
  return finish();
}
