// ALL_REPO
#include "common.hpp"
typedef WaveletTree<std::vector<bool> > WT;
static void range(uint64_t n, uint64_t lo, uint64_t hi) {
  { std::ostringstream o; o << "range code of " << n << " in [" << lo << "," << hi << "]"; vp::begin(o.str(), hi > lo); }
  Bits b; size_t pre = vp::rnd(9); for (size_t i = 0; i < pre; ++i) b.push_back(i & 1);
  utils::binaryCode(n, lo, hi, b); size_t len = b.v.size() - pre; for (int i = 0; i < 3; ++i) b.push_back(vp::rnd(2));
  b.p = pre; size_t br = 7; uint64_t m = utils::binaryDecode(b, lo, hi, &br);
  CHECK(m == n, "decoded " << m); CHECK(b.p == pre + len, "consumed " << b.p - pre << " of " << len << " bits"); CHECK(br == 7 + len, "reported " << br - 7 << " bits of " << len);
  b.p = pre; m = utils::binaryDecode(b, lo, hi); CHECK(m == n && b.p == pre + len, "second decoder gives " << m << " after " << b.p - pre << " of " << len << " bits");
}
template <class I> static void interp(const std::vector<I> &l, uint64_t lo, uint64_t hi, bool shortForm) {
  { std::ostringstream o; o << "interpolative code of [" << vp::join(l) << "] in [" << lo << "," << hi << "], " << 8 * sizeof(I) << "-bit elements"; vp::begin(o.str(), l.size() > 1); }
  Bits b; if (shortForm) utils::binaryInterpolativeCode(l, hi, b); else utils::binaryInterpolativeCode(l, 0, l.size() - 1, lo, hi, b);
  size_t len = b.v.size(); for (int i = 0; i < 3; ++i) b.push_back(vp::rnd(2));
  std::vector<I> r(vp::rnd(3), 77); size_t k = r.size(); size_t br = shortForm ? utils::binaryInterpolativeDecode(r, b, hi, l.size()) : utils::binaryInterpolativeDecode(r, b, lo, hi, l.size());
  CHECK(r.size() == l.size() + k, "decoded " << r.size() - k << " elements"); for (size_t i = 0; i < l.size(); ++i) CHECK(r[k + i] == l[i], "element " << i << " decoded as " << (uint64_t)r[k + i]);
  CHECK(b.p == len, "consumed " << b.p << " of " << len << " bits"); CHECK(br == len, "reported " << br << " of " << len << " bits");
}
static void rl(uint32_t x, unsigned w) {
  { std::ostringstream o; o << "run-length code of " << x << " with parameter " << w; vp::begin(o.str()); }
  std::vector<bool> v; WT::fixedIntegerCode(v, x, w); CHECK(WT::lengthOfFixedCode(x, w) == v.size(), "reported length " << (int)WT::lengthOfFixedCode(x, w) << " of " << v.size());
  size_t ones = 0, p = 0; while (p < v.size() && v[p]) { ++ones; ++p; } CHECK(p < v.size(), "unterminated"); ++p;
  uint64_t y = 0; for (size_t k = 0; k < ones + w; ++k) { CHECK(p < v.size(), "truncated"); y = 2 * y + v[p++]; } CHECK(p == v.size(), "trailing bits");
  CHECK(y + WT::fixedIntegerCodeTranslation(ones, w) == x, "decoded " << y + WT::fixedIntegerCodeTranslation(ones, w));
}
static void unary(uint64_t n) { { std::ostringstream o; o << "unary code of " << n; vp::begin(o.str()); } Bits b; utils::unaryCode(b, n); CHECK(b.v.size() == n, b.v.size() << " bits"); b.push_back(0); b.push_back(1); uint64_t m = utils::unaryDecode(b); CHECK(m == n && b.p == n, "decoded " << m << " consuming " << b.p); }
static void gamma(uint64_t x) { { std::ostringstream o; o << "gamma code of " << x; vp::begin(o.str()); } std::vector<bool> v; WT::gammaCode(v, x); size_t ones = 0, p = 0; while (p < v.size() && v[p]) { ++ones; ++p; } ++p; uint64_t y = 1; for (size_t k = 0; k < ones; ++k) { CHECK(p < v.size(), "truncated"); y = 2 * y + v[p++]; } CHECK(p == v.size() && y == x, "decoded " << y); }
static void logs(uint64_t x) { { std::ostringstream o; o << "logarithms of " << x; vp::begin(o.str()); } if (!x) return; unsigned b = utils::logFloor((size_t)x); CHECK(b < 64 && (x >> b) == 1, "floor " << b); unsigned c = utils::logCeiling((size_t)x); unsigned e = 0; while (e < 64 && (1ull << e) < x) ++e; CHECK(c == e, "ceiling " << c << " instead of " << e);
  if (x < (1ull << 32)) { unsigned a = utils::logFloor((unsigned)x); CHECK(a == b, "32-bit floor " << a); CHECK(utils::mostSignificantBit((uint32)x) == (1u << b), "most significant bit"); } if (x < 65536) CHECK(utils::mostSignificantBit16(x) == (1u << b), "most significant bit 16"); }
static void push(uint64_t n, unsigned k) { { std::ostringstream o; o << "pushBits " << n << " " << k; vp::begin(o.str()); } std::vector<bool> a, b, c; utils::pushBits(n, (byte)k, a); size_t kk = k; utils::pushBits(b, n, kk); utils::pushBitsRev(c, n, kk); CHECK(a.size() == k && b.size() == k && c.size() == k, "number of bits"); for (unsigned i = 0; i < k; ++i) { bool e = (n >> (k - 1 - i)) & 1; CHECK(a[i] == e && b[i] == e && c[k - 1 - i] == e, "bit " << i); } }
template <class I> static std::vector<I> sub(uint64_t lo, uint64_t hi, size_t n) { std::set<uint64_t> s; uint64_t span = hi - lo + 1; if (n > span) n = span; int style = vp::rnd(3); while (s.size() < n) { uint64_t v = style == 0 ? lo + vp::rnd(span) : style == 1 ? lo + std::min(span - 1, vp::rndbits(32)) : hi - std::min(span - 1, vp::rndbits(20)); if (!s.insert(v).second) { v = lo + vp::rnd(span); s.insert(v); } } return std::vector<I>(s.begin(), s.end()); }
int main(int argc, char **argv) {
  vp::setup(argc, argv);
  if (vp::rep_group.size()) { using vp::in;
    if (vp::has("n") && vp::has("lo")) { uint64_t n = in("n"), lo = in("lo"), hi = in("hi"); if (lo <= n && n <= hi && hi - lo < (1ull << 63)) range(n, lo, hi); }
    if (vp::has("w")) rl(in("x"), in("w")); else if (vp::rep_group == "gamma_code") gamma(in("x")); if (vp::has("x")) logs(in("x")); if (vp::has("y")) logs(in("y")); if (vp::has("bits")) push(in("n"), in("bits"));
    if (vp::rep_group.find("unary") == 0 && in("n") < 100000) unary(in("n"));
    if (vp::has("begin")) { uint64_t lo = in("lo"), hi = in("hi"), cnt = in("end") - in("begin") + 1; for (int k = 0; k < 300 && cnt < 5000; ++k) { if (hi < 256) interp(sub<byte>(lo, hi, cnt), lo, hi, false); interp(sub<uint32>(lo, hi, cnt), lo, hi, false); } } }
  for (uint64_t hi = 0; hi < (vp::thorough ? 14u : 10u); ++hi) for (uint64_t m = 1; m < (2ull << hi); ++m) { std::vector<byte> l; std::vector<uint32> w; for (unsigned i = 0; i <= hi; ++i) if (m >> i & 1) { l.push_back(i); w.push_back(i + 3); } interp(l, 0, hi, true); interp(w, 3, hi + 3, false); }
  for (uint64_t len = 1; len < 300; ++len) for (uint64_t n = 0; n < len; ++n) range(n + len % 5, len % 5, len % 5 + len - 1);
  for (unsigned b = 0; b < 64; ++b) for (int d = -2; d <= 2; ++d) { uint64_t x = (1ull << b) + d; if (x == 0 || (d < 0 && b < 2)) continue; logs(x); gamma(x); for (unsigned w = 0; w < 16; ++w) if (x < (1ull << 32)) rl(x, w);
    if (x < (1ull << 63)) for (uint64_t lo : {0ull, 1ull, 250ull}) { uint64_t hi = lo + x - 1; range(lo, lo, hi); range(hi, lo, hi); range(lo + (x - 1) / 2, lo, hi); range(lo + (x - 1) / 3, lo, hi); } }
  for (uint32_t x = 1; x < 700; ++x) { unary(x); for (unsigned w = 0; w < 16; ++w) rl(x, w); }
  for (unsigned k = 0; k <= 64; ++k) for (int i = 0; i < 6; ++i) push(vp::rndbits(64), k);
  for (int i = 0; i < 500 || vp::more(); ++i) {
    uint64_t lo = vp::rndbits(8), hi = lo + vp::rndbits(62); range(lo + vp::rnd(hi - lo + 1), lo, hi);
    { uint64_t l2 = vp::rnd(256), h2 = l2 + vp::rnd(256 - l2); interp(sub<byte>(l2, h2, 1 + vp::rnd(h2 - l2 + 1)), l2, h2, false); interp(sub<byte>(0, h2, 1 + vp::rnd(h2 + 1)), 0, h2, true); }
    { uint64_t l2 = vp::rndbits(6), h2 = std::min<uint64_t>(0xffffffffull, l2 + vp::rndbits(32)); interp(sub<uint32>(l2, h2, 1 + vp::rnd(vp::rnd(4) ? 12 : 400)), l2, h2, false); }
    uint32_t x = vp::rndbits(32); if (x) rl(x, vp::rnd(16)); uint64_t g = vp::rndbits(64); if (g) { gamma(g); logs(g); } push(vp::rnd(), vp::rnd(65)); }
  return vp::done();
}
