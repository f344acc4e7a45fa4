/* Native conformance harness support: runs the REAL compiled code of /repo against the
 * executable form of the contract.  Every case is described in vp_case before it runs, so
 * an abort / crash / hang inside the code under test names its failing input. */
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
#include <ctime>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <fstream>
#include <iterator>
#include <algorithm>
#include <numeric>
#include <stack>
#include <queue>
#include <deque>
#include <utility>
#include <cassert>
#include <cmath>
#include <string>
#include <functional>
#include <unordered_set>
#include <boost/static_assert.hpp>
#define private public
#define protected public

namespace vp {
static char vp_case[1 << 16] = "(startup)";
static unsigned long long cases = 0, distinct = 0;
static std::vector<std::string> samples;
static std::unordered_set<uint64_t> seen;
static double t_end = 0;
static uint64_t seed = 1;
static std::map<std::string, std::string> rep;   // replay inputs
static std::string rep_group;
static bool thorough = false;
static double scale = 1.0;

static double now() { timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }

static void out(const char *s) { size_t n = strlen(s); ssize_t r = write(1, s, n); (void)r; }
static void onsig(int s) {
  out("\nFAIL ");
  out(s == SIGALRM ? "hang" : s == SIGABRT ? "abort" : "crash");
  out(" in case: "); out(vp_case); out("\n");
  _exit(1);
}
static void describe(const std::string &s) {
  size_t n = s.size() < sizeof(vp_case) - 1 ? s.size() : sizeof(vp_case) - 1;
  memcpy(vp_case, s.data(), n); vp_case[n] = 0;
}
static uint64_t fnv(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
/* start a case; nontrivial says whether it exercises the property beyond the trivial path */
static void begin(const std::string &s, bool nontrivial = true, unsigned tmo = 20) {
  describe(s); ++cases;
  if (nontrivial && seen.size() < 4000000 && seen.insert(fnv(s)).second) ++distinct;
  if (samples.size() < 8 && (cases & (cases - 1)) == 0) samples.push_back(s.substr(0, 300));
  alarm(tmo);
}
static void fail(const std::string &why) {
  std::string s = "\nFAIL " + why + " in case: " + vp_case + "\n";
  out(s.c_str()); _exit(1);
}
#define CHECK(c, why) do { if (!(c)) { std::ostringstream vp_o; vp_o << why; vp::fail(vp_o.str()); } } while (0)

static uint64_t s0 = 0x9E3779B97F4A7C15ull;
static uint64_t rnd() { s0 ^= s0 << 13; s0 ^= s0 >> 7; s0 ^= s0 << 17; return s0 * 0x2545F4914F6CDD1Dull; }
static uint64_t rnd(uint64_t n) { return n ? (rnd() >> 11) % n : 0; }
/* value with a random bit length: exercises every magnitude */
static uint64_t rndbits(unsigned maxbits) { unsigned b = rnd(maxbits + 1); uint64_t v = rnd(); if (b == 0) return 0; v = b == 64 ? v : (v & ((1ull << b) - 1)); return v | (1ull << (b - 1)); }
static bool more() { return now() < t_end; }
static uint64_t in(const std::string &k, uint64_t d = 0) {
  auto it = rep.find("IN_" + k); if (it == rep.end()) return d;
  const std::string &v = it->second;
  if (v == "TRUE" || v == "true") return 1; if (v == "FALSE" || v == "false") return 0;
  if (v[0] == '-') return (uint64_t)strtoll(v.c_str(), 0, 0); return strtoull(v.c_str(), 0, 0);
}
static bool has(const std::string &k) { return rep.count("IN_" + k) > 0; }
static std::string hex(const uint8_t *p, size_t n) { static const char *d = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n && i < 3000; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; } if (n > 3000) s += "..."; return s; }
template <class C> static std::string join(const C &c) { std::ostringstream o; size_t k = 0; for (auto &x : c) { if (k++) o << ","; if (k > 400) { o << "..."; break; } o << (long long)x; } return o.str(); }

static void setup(int argc, char **argv) {
  double secs = 5;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--seed") seed = strtoull(argv[++i], 0, 0);
    else if (a == "--seconds") secs = atof(argv[++i]);
    else if (a == "--thorough") thorough = true;
    else if (a == "--replay") { rep_group = argv[++i]; }
    else { size_t e = a.find('='); if (e != std::string::npos) rep[a.substr(0, e)] = a.substr(e + 1); }
  }
  s0 ^= seed * 0xD1342543DE82EF95ull; for (int i = 0; i < 8; ++i) rnd();
  t_end = now() + secs;
  static char stk[1 << 16]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK;
  int sg[] = {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM};
  for (int s : sg) sigaction(s, &sa, 0);
}
static int done() {
  alarm(0);
  printf("\nCASES %llu %llu\n", cases, distinct);
  for (auto &s : samples) { std::string t = s; for (auto &c : t) if (c == '\n') c = ' '; printf("SAMPLE %s\n", t.c_str()); }
  printf("DONE\n"); fflush(stdout);
  _exit(0);
}
}
