// ALL_REPO
#include "common.hpp"
typedef std::vector<std::pair<uint64, uint32> > PV;
static std::string lab(const PV &f) { std::ostringstream o; o << f.size() << " symbols"; for (size_t i = 0; i < f.size() && i < 260; ++i) o << " " << f[i].second << ":" << f[i].first; return o.str(); }
typedef unsigned __int128 u128;
static u128 best(const PV &f) { if (f.size() == 1) return f[0].first; std::priority_queue<u128, std::vector<u128>, std::greater<u128> > q; for (auto &p : f) q.push(p.first); u128 c = 0; while (q.size() > 1) { u128 a = q.top(); q.pop(); a += q.top(); q.pop(); c += a; q.push(a); } return c; }
static std::string s128(u128 v) { if (v >> 64) return "2^64 or more"; return std::to_string((uint64)v); }
/* lengths: one per symbol, complete, optimal */
static void lengths(const PV &f, const PV &L, const char *w) {
  CHECK(L.size() == f.size(), w << ": " << L.size() << " lengths"); std::map<uint32, uint64> m, fr; for (auto &p : L) { CHECK(!m.count(p.second), w << ": symbol " << p.second << " has two lengths"); m[p.second] = p.first; } for (auto &p : f) { CHECK(m.count(p.second), w << ": symbol " << p.second << " has no length"); CHECK(m[p.second] >= 1, w << ": symbol " << p.second << " has length " << m[p.second]); }
  if (f.size() == 1) { CHECK(L[0].first == 1, w << ": single symbol has length " << L[0].first); return; }
  std::map<uint64, u128> cnt; for (auto &p : L) ++cnt[p.first]; u128 c = 0; uint64 at = 0; for (auto it = cnt.rbegin(); it != cnt.rend(); ++it) { if (at) while (at > it->first) { CHECK(!(c & 1), w << ": lengths are not complete (odd number of nodes at depth " << at << ")"); c >>= 1; --at; } at = it->first; c += it->second; } while (at > 0) { CHECK(!(c & 1), w << ": lengths are not complete"); c >>= 1; --at; } CHECK(c == 1, w << ": Kraft sum is not one");
  u128 t = 0; for (auto &p : f) t += (u128)p.first * m[p.second]; CHECK(t == best(f), w << ": total " << s128(t) << " bits, the optimum is " << s128(best(f))); }
/* codes: prefix free, canonical, and the shape gives the same lengths and codes back */
static std::string full(uint32 len, uint32 code) { std::string s; for (int i = len - 1; i >= 0; --i) s += (i < 32 && (code >> i & 1)) ? '1' : '0'; return s; }
static void codes(uint32 *clen) {
  uint32 code[256]; for (int i = 0; i < 256; ++i) code[i] = vp::rnd(); uint32 keep[256]; std::copy(clen, clen + 256, keep); utils::computeHuffmanCodes(clen, code); CHECK(std::equal(clen, clen + 256, keep), "the lengths are changed");
  std::vector<std::string> c; for (int i = 0; i < 256; ++i) if (clen[i]) { CHECK(code[i] < 256, "code of " << i << " has more than eight significant bits"); CHECK(clen[i] >= 32 || code[i] >> clen[i] == 0, "code of " << i << " is longer than its length"); c.push_back(full(clen[i], code[i])); } else CHECK(code[i] == 0, "unused symbol " << i << " has a code");
  std::sort(c.begin(), c.end()); for (size_t i = 1; i < c.size(); ++i) CHECK(c[i].compare(0, c[i - 1].size(), c[i - 1]) != 0, "code " << c[i - 1] << " is a prefix of " << c[i]);
  HuffmanEncoder E; HuffmanDecoder D; Bits sh; E.serializeShape(clen, sh.v); MemIn in; byte b = 0; size_t n = sh.v.size(); for (size_t i = 0; i < n; ++i) { b = b << 1 | sh.v[i]; if (i % 8 == 7) in.d.push_back(b); } if (n % 8) in.d.push_back(b << (8 - n % 8)); size_t L = in.d.size(); for (int i = 0; i < 3; ++i) in.d.push_back(vp::rnd(256));
  uint32 back[256]; std::fill(back, back + 256, 0); size_t r = D.deserializeShape(in, back); CHECK(in.p == L && in.bits == 0, "shape reader stops at " << in.p << " of " << L); CHECK(r == L, "shape reader reports " << r << " bytes of " << L); for (int i = 0; i < 256; ++i) CHECK(back[i] == clen[i], "length of " << i << " is rebuilt as " << back[i] << " instead of " << clen[i]);
  uint32 code2[256]; utils::computeHuffmanCodes(back, code2); CHECK(std::equal(code, code + 256, code2), "codes are rebuilt differently");
  PV t; for (int i = 0; i < 256; ++i) if (clen[i]) t.push_back({clen[i], i}); typedef WaveletTree<std::vector<bool> > WT; WT w; TreeNode<std::vector<bool> > *old = w.m_root; w.m_integerCodeTree = new TreeNode<std::vector<bool> >(); w.assignPrefixCodes(t); delete old; WT::collectCodes(w.m_codes, w.m_root); for (int i = 0; i < 256; ++i) CHECK(w.m_codes[i].size() == clen[i], "tree code of " << i << " has " << w.m_codes[i].size() << " bits instead of " << clen[i]); }
static void all(const PV &f0) {
  PV f(f0); std::sort(f.begin(), f.end(), [](const std::pair<uint64, uint32> &a, const std::pair<uint64, uint32> &b) { return a.second < b.second; }); vp::begin(lab(f)); bool bytes = f.back().second < 256;
  PV L; if (bytes) { uint64 fr[256] = {0}; for (auto &p : f) fr[p.second] = p.first; utils::calculateHuffmanLengths(L, fr); lengths(f, L, "by byte"); uint32 clen[256] = {0}; for (auto &p : L) clen[p.second] = p.first; if (*std::max_element(clen, clen + 256) <= 250) codes(clen); }
  { PV M; std::vector<uint64> fr; std::vector<uint32> nm; for (auto &p : f) { if (vp::rnd(3) == 0) { fr.push_back(0); nm.push_back(p.second + 70000); } fr.push_back(p.first); nm.push_back(p.second); } utils::calculateHuffmanLengths(M, &fr[0], nm); lengths(f, M, "by name"); }
  { PV M(f); std::sort(M.begin(), M.end()); utils::calculateCodeLengths(M, 0, true); lengths(f, M, "sorted"); } { PV M(f); utils::calculateCodeLengths(M, 0, false); lengths(f, M, "unsorted"); } }
static PV mk(const std::vector<uint64> &w) { PV f; for (size_t i = 0; i < w.size(); ++i) f.push_back({w[i], (uint32)i}); return f; }
int main(int argc, char **argv) {
  vp::setup(argc, argv);
  for (int a = 1; a <= 6; ++a) { all(mk({(uint64)a})); for (int b = 1; b <= 6; ++b) { all(mk({(uint64)a, (uint64)b})); for (int c = 1; c <= 6; ++c) { all(mk({(uint64)a, (uint64)b, (uint64)c})); for (int d = 1; d <= 6; ++d) { all(mk({(uint64)a, (uint64)b, (uint64)c, (uint64)d})); if ((a + b + c + d) % 3 == 0) for (int e = 1; e <= 5; ++e) all(mk({(uint64)a, (uint64)b, (uint64)c, (uint64)d, (uint64)e})); } } } }
  for (int n = 1; n <= 256; ++n) { std::vector<uint64> w(n, 7); all(mk(w)); for (auto &x : w) x = 1 + vp::rnd(4); all(mk(w)); }
  for (int n = 2; n <= 80; n += 3) { std::vector<uint64> w(n, 1); for (int i = 2; i < n; ++i) w[i] = w[i - 1] + w[i - 2]; all(mk(w)); std::reverse(w.begin(), w.end()); all(mk(w)); } for (int n = 2; n <= 60; n += 7) { std::vector<uint64> w; for (int i = 0; i < n; ++i) w.push_back(1ull << i); all(mk(w)); }
  for (int i = 0; i < 200 || vp::more(); ++i) { int n = 1 + vp::rnd(vp::rnd(3) ? 256 : vp::rnd(2) ? 12 : 3000), k = vp::rnd(4); std::vector<uint64> w; std::set<uint32> nm; PV f; for (int j = 0; j < n; ++j) { w.push_back(1 + (k == 0 ? vp::rndbits(40) : k == 1 ? vp::rnd(3) : k == 2 ? vp::rndbits(j % 30) : vp::rnd(1000))); uint32 s; do s = vp::rnd(n <= 256 ? 256 : 60000); while (!nm.insert(s).second); f.push_back({w.back(), s}); } all(f); }
  return vp::done();
}
