// ALL_REPO
#include <boost/program_options.hpp>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include "common.hpp"
namespace tc {
#define main tool_main
#include "compress.cpp"
}
namespace tu {
#include "uncompress.cpp"
}
namespace tp {
#include "preprocess.cpp"
}
namespace tq {
#include "postprocess.cpp"
#undef main
}
typedef std::vector<byte> V;
static std::string dir;
struct SO : MemOut { V *t; SO(V *x) : t(x) {} ~SO() { *t = d; } };
struct SI : MemIn { size_t *c; SI(const V &v, size_t *x) : MemIn(v), c(x) {} ~SI() { *c = p; } };
static std::string lab(const V &v) { std::ostringstream o; o << v.size() << " bytes, fnv " << std::hex << vp::fnv(std::string(v.begin(), v.end())) << " "; return o.str() + (v.size() <= 300 ? vp::hex(v.data(), v.size()) : vp::hex(v.data(), 60)); }
static void diff(const V &a, const V &b) { if (a == b) return; size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; CHECK(false, "restored " << a.size() << " bytes for " << b.size() << ", first difference at " << i); }
static const char *CD = "HmMuUbB"; // 'U' is not offered by the tools
static void mem(const V &v, uint64 lim, char cod, const std::string &pre, char bwt, uint32 sp) {
  std::ostringstream o; o << "coder " << cod << ", preprocessing '" << pre << "', bwt " << bwt << ", " << sp << " starting points, memory " << lim << ": "; vp::begin(o.str() + lab(v), true, 60);
  V z, r; size_t used = 0, got;
  { size_t x; Compressor c(new SI(v, &x), new SO(&z), pre, lim, cod); c.initializeBwtAlgorithm(bwt, sp); got = c.compress(1); }
  CHECK(z.size() >= 2 && z[0] == (byte)cod, "first byte is not the coder"); CHECK(got == z.size(), "reported " << got << " bytes of " << z.size()); size_t L = z.size(); for (int i = 0; i < 20; ++i) z.push_back(vp::rnd(256));
  { Decompressor d(new SI(z, &used), new SO(&r)); got = d.decompress(1); }
  diff(r, v); CHECK(got == v.size(), "reported " << got << " bytes restored of " << v.size()); CHECK(used == L, "decompressor consumed " << used << " of " << L << " bytes"); }
static V rd(const std::string &f) { std::ifstream s(f.c_str(), std::ios::binary); return V((std::istreambuf_iterator<char>(s)), std::istreambuf_iterator<char>()); }
static void wr(const std::string &f, const V &v) { std::ofstream s(f.c_str(), std::ios::binary); s.write((const char*)v.data(), v.size()); }
static int tool(int (*m)(int, char**), std::vector<std::string> a, const std::string &in = "", const std::string &out = "", bool pipe_ = false) {
  fflush(stdout); int p[2]; if (pipe_ && pipe(p)) return -1; pid_t c = fork();
  if (!c) { alarm(100); int n = open("/dev/null", O_RDWR); dup2(in.empty() ? n : open(in.c_str(), O_RDONLY), 0); dup2(pipe_ ? p[1] : out.empty() ? n : open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), 1); dup2(n, 2); if (pipe_) { close(p[0]); close(p[1]); }
    signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL); std::vector<char*> q; static std::string nm = "tool"; q.push_back(&nm[0]); for (auto &x : a) q.push_back(&x[0]); q.push_back(0); int r = m(a.size() + 1, q.data()); fflush(stdout); _exit(r); }
  if (pipe_) { close(p[1]); V b; byte t[65536]; ssize_t k; while ((k = read(p[0], t, sizeof t)) > 0) b.insert(b.end(), t, t + k); close(p[0]); wr(out, b); }
  int st; waitpid(c, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); }
static void chk(int r, int want, const char *w) { CHECK(r == want, w << " ended with " << r); }
static void files(const V &v, std::vector<std::string> a, int mode) {
  std::ostringstream o; o << "tools, mode " << mode << ", options"; for (auto &x : a) o << " " << x; o << ": "; vp::begin(o.str() + lab(v), true, 250); std::string f = dir + "/a", z = dir + "/z", r = dir + "/r"; wr(f, v); wr(z, V()); wr(r, V(3, 1)); std::vector<std::string> b;
  if (mode & 1) { a.push_back("-i"); a.push_back("-c"); chk(tool(tc::tool_main, a, f, z), 0, "compress"); } else { a.push_back(f); a.push_back(z); chk(tool(tc::tool_main, a), 0, "compress"); }
  if (mode & 2) { b = {"-i", "-c"}; chk(tool(tu::tool_main, b, z, r), 0, "uncompress"); } else { b = {z, r}; chk(tool(tu::tool_main, b), 0, "uncompress"); }
  diff(rd(r), v); }
static void pp(const V &v, const std::string &pre, uint64 blk, int mode) {
  std::ostringstream o; o << "preprocess '" << pre << "', blocks of " << blk << "kB, mode " << mode << ": "; vp::begin(o.str() + lab(v), true, 250); std::string f = dir + "/a", z = dir + "/z", r = dir + "/r"; wr(f, v); wr(z, V()); wr(r, V(3, 1)); std::vector<std::string> a = {"-b", std::to_string(blk)}, b; if (pre.size()) { a.push_back("--prepr"); a.push_back(pre); }
  if (mode & 1) { a.push_back("-i"); a.push_back("-c"); chk(tool(tp::tool_main, a, f, z), 0, "preprocess"); } else { a.push_back(f); a.push_back(z); chk(tool(tp::tool_main, a), 0, "preprocess"); }
  if (mode & 2) { b = {"-i", "-c"}; chk(tool(tq::tool_main, b, z, r), 0, "postprocess"); } else { b = {z, r}; chk(tool(tq::tool_main, b), 0, "postprocess"); }
  diff(rd(r), v); }
static V gen(size_t n) {
  V v; int k = vp::rnd(7), a = 1 + vp::rnd(vp::rnd(2) ? 4 : 255), b0 = vp::rnd(256); int p = 1 + vp::rnd(40);
  while (v.size() < n) { size_t i = v.size(); switch (k) {
    case 0: v.push_back(b0 + vp::rnd(a)); break; case 1: v.push_back(b0 + (i % p) * a); break; case 2: v.push_back(vp::rnd(40) ? b0 : b0 + vp::rnd(a)); break;
    case 3: { size_t r = 1 + vp::rnd(vp::rnd(5) ? 6 : 60); byte c = b0 + vp::rnd(a); while (r-- && v.size() < n) v.push_back(c); break; }
    case 4: { /* very skewed: long codes */ int c = __builtin_ctz(vp::rnd(1u << 30) | 1u << 29); v.push_back(b0 + c); break; }
    case 5: v.push_back(i); break;
    default: if (i > 40 && vp::rnd(3)) { size_t s = vp::rnd(i), l = 1 + vp::rnd(50); for (size_t j = 0; j < l && v.size() < n; ++j) v.push_back(v[s + j]); } else v.push_back(vp::rnd(256)); } }
  v.resize(n); return v; }
/* Fibonacci-distributed runs: the longest Huffman codes */
static V fib(int k) { V v; std::vector<uint64> f(k, 1); for (int i = 2; i < k; ++i) f[i] = f[i - 1] + f[i - 2]; int last = -1; bool any = true; while (any) { any = false; for (int i = k - 1; i >= 0; --i) if (f[i]) { --f[i]; any = true; v.push_back(255 - i * 3); if (last == i) v.back() ^= 0; last = i; } } return v; }
static std::string P() { const char *p[] = {"", "p", "pp", "ppp", "pppp"}; return p[vp::rnd(5)]; }
int main(int argc, char **argv) {
  vp::setup(argc, argv); dir = argv[0]; dir = dir.substr(0, dir.rfind('/')) + "/c15XXXXXX"; std::vector<char> t(dir.begin(), dir.end()); t.push_back(0); if (!mkdtemp(t.data())) return 1; dir = t.data(); int k = 0;
  /* sizes around nothing and around one and several blocks */
  for (size_t n = 0; n <= 12; ++n) for (const char *c = CD; *c; ++c) { mem(gen(n), 24 + vp::rnd(40), *c, P(), "dsa"[vp::rnd(3)], 1 + vp::rnd(256)); mem(gen(n), 100000, *c, "p", 'd', 8); }
  for (uint64 lim : {28ull, 60ull, 555ull, 1400ull, 6000ull}) { size_t b = lim * 0.185; for (size_t m = 1; m <= 3; ++m) for (int d = -1; d <= 1; ++d) for (int q = 0; q < 2; ++q) mem(gen(m * b + d), lim, CD[k++ % 7], q ? P() : "", "dsa"[vp::rnd(3)], 1 + vp::rnd(vp::rnd(2) ? 8 : 256)); }
  for (uint64 lim : {600ull, 1500ull}) { size_t b = lim * 0.74; for (size_t m = 1; m <= 3; ++m) for (int d = -1; d <= 1; ++d) mem(gen(m * b + d), lim, CD[k++ % 7], "p", 'd', 3); }
  for (int s : {1, 2, 3, 17, 127, 128, 255, 256}) { V v; for (int i = 0; i < s; ++i) for (int j = 0; j < 3; ++j) v.push_back(i); for (const char *c = CD; *c; ++c) mem(v, 100000, *c, "", 'd', 4); mem(v, 100000, CD[k++ % 7], "pp", 's', 4); }
  for (int i = 2; i <= 21; ++i) mem(fib(i), 100000000, 'H', "", 'd', 1);
  /* sections: 10000 bytes of one symbol and their neighbours */
  for (int d = -1; d <= 1; ++d) { V v; for (int s = 0; s < 4; ++s) v.insert(v.end(), 10000 + d * (s & 1), s * 60); for (const char *c = CD; *c; ++c) mem(v, 1000000, *c, "", 'd', 5); V w = gen(40000); w.insert(w.end(), v.begin(), v.end()); for (size_t i = w.size() - 1; i > 0; --i) std::swap(w[i], w[vp::rnd(i + 1)]); for (const char *c = CD; *c; ++c) mem(w, 2000000, *c, "", 'd', 5); }
  for (int e = 1; e < 19; ++e) { V v((1u << e) + vp::rnd(3) - 1, 'q'); mem(v, 4000000, 'H', "", 'd', 2); mem(v, 4000000, CD[k++ % 7], "", 'd', 2); }
  { /* as many sections as there are byte values */ V v; for (int i = 0; i < 256; ++i) v.insert(v.end(), 10000 + i % 3, i * 7); for (const char *c = "HBu"; *c; ++c) mem(v, 100000000, *c, "", 'd', 1); }
  /* the tools: file, stdin and stdout, several coders and options */
  for (int i = 0; i < 14; ++i) { std::vector<std::string> a; a.push_back("-e"); a.push_back(std::string(1, "HmMubB"[i % 6])); if (i % 3 == 1) { a.push_back("--prepr"); a.push_back("pp"); } if (i & 1) { a.push_back("-s"); a.push_back(std::to_string(1 + vp::rnd(256))); } a.push_back("-m"); a.push_back(std::to_string(i % 4)); if (i % 5 == 0) { a.push_back("--bwt"); a.push_back("s"); } files(gen(i == 3 ? 0 : i == 4 ? 500000 : i == 5 ? 65536 : 1 + vp::rndbits(16)), a, i & 3); }
  files(gen(3000), {}, 0); files(gen(70000), {}, 3);
  for (int i = 0; i < 10; ++i) pp(gen(i == 3 ? 0 : i < 3 ? 1000 * (1 + i) + vp::rnd(3) - 1 : 1 + vp::rndbits(16)), P(), i == 9 ? 100000 : 1 + vp::rnd(3), i & 3);
  { /* to a pipe */ V v = gen(400000); std::string f = dir + "/a", z = dir + "/z", r = dir + "/r"; vp::begin("compress -c into a pipe, several blocks", true, 120); wr(f, v); wr(r, V()); int s = tool(tc::tool_main, {"-m", "1", "-c", f}, "", z, true), u = tool(tu::tool_main, {z, r}); if (s || u || rd(r) != v) std::cout << "KNOWN pipe-output" << std::endl; }
  for (int i = 0; i < 10 || vp::more(); ++i) { size_t n = vp::rndbits(vp::rnd(6) ? 12 : vp::thorough ? 21 : 17); mem(gen(n), vp::rnd(3) ? 30 + vp::rndbits(20) : 1000000 * (1 + vp::rnd(20)), CD[vp::rnd(7)], vp::rnd(2) ? "" : P(), "dsa"[vp::rnd(3)], 1 + vp::rnd(vp::rnd(2) ? 8 : 256)); }
  for (const char *x : {"/a", "/z", "/r"}) unlink((dir + x).c_str()); rmdir(dir.c_str());
  return vp::done();
}
