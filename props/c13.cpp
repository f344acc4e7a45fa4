// ALL_REPO
#include "common.hpp"
static std::string lab(const std::vector<byte> &v) { std::ostringstream o; o << v.size() << " bytes, fnv " << std::hex << vp::fnv(std::string(v.begin(), v.end())) << " "; return o.str() + (v.size() <= 400 ? vp::hex(v.data(), v.size()) : vp::hex(v.data(), 80)); }
static bool ok_points(size_t n, size_t sp) { return true; }
/* rows by plain sorting: the transform of the reversed block closed by an end mark smaller than every byte */
static void naive(const std::vector<byte> &v, std::vector<int> &row) { std::vector<byte> r(v.rbegin(), v.rend()); size_t n = r.size(); row.resize(n + 1); for (size_t i = 0; i <= n; ++i) row[i] = i;
  std::sort(row.begin(), row.end(), [&](int a, int b) { size_t la = n - a, lb = n - b; int c = memcmp(r.data() + a, r.data() + b, std::min(la, lb)); return c ? c < 0 : la < lb; }); }
static void trip(const std::vector<byte> &v, uint32 sp, const std::string &what, bool deep) {
  for (int alg = 0; alg < 2; ++alg) for (int fr = 0; fr < 2; ++fr) {
    std::ostringstream o; o << what << (alg ? ", sais" : ", divsufsort") << (fr ? " with counts" : "") << ", " << sp << " starting points, "; vp::begin(o.str() + lab(v));
    byte *m = new byte[v.size() + 1]; std::copy(v.begin(), v.end(), m); byte mark = vp::rnd(256); m[v.size()] = mark;
    BWTManager M(sp); M.setStartingPoints(sp); M.initialize(alg ? 's' : 'd'); BWTBlock B(m, v.size(), false); uint32 F[256]; std::fill(F, F + 256, 0);
    if (fr) M.doTransform(B, F); else M.doTransform(B);
    CHECK(B.isTransformed(), "not marked as transformed"); CHECK(B.size() == v.size() && B.begin() == m, "block moved"); CHECK(m[v.size()] == mark, "byte after the block changed");
    const std::vector<uint32> &L = B.LFpowers(); CHECK(L.size() == (v.size() <= 256 ? 1 : sp), "stored " << L.size() << " starting points");
    for (size_t i = 0; i < L.size(); ++i) CHECK(L[i] <= v.size(), "starting point " << i << " is row " << L[i]);
    if (fr) { uint64 G[256] = {0}; for (byte c : v) ++G[c]; /* counts of the block as transmitted */ for (int c = 0; c < 256; ++c) { uint64 k = std::count(m, m + v.size(), (byte)c); CHECK(F[c] == k && G[c] == k, "count of " << c << " is " << F[c] << ", block has " << k); } }
    if (deep) { std::vector<int> row; naive(v, row); size_t n = v.size(); size_t e = std::find(row.begin(), row.end(), 0) - row.begin(); CHECK(L[0] == e, "end mark in row " << L[0] << ", sorted order says " << e);
      for (size_t i = 0; i < n; ++i) { size_t r = i == e ? n : i; if (i == e && r == e) continue; byte want = v[n - 1 - (row[r] - 1)]; if (i == e && e == n) continue; CHECK(m[i] == want, "transform differs at " << i); } }
    std::vector<byte> t(m, m + v.size()); std::vector<uint32> lf = L;
    for (int inv = 0; inv < 3; ++inv) { for (size_t i = 0; i < v.size(); ++i) m[i] = t[i]; B.LFpowers() = lf;
      FastInverseBWTransform fi; MtlSaInverseBWTransform mi; InverseBWTransform *g = giveInverseTransformer(); InverseBWTransform *T = inv == 0 ? (InverseBWTransform*)&mi : inv == 1 ? (InverseBWTransform*)&fi : g; T->doTransform(B); delete g;
      for (size_t i = 0; i < v.size(); ++i) CHECK(m[i] == v[i], "inverse " << inv << " differs at " << i << ": " << (int)m[i] << " for " << (int)v[i]); }
    delete[] m;
  }
}
static std::vector<byte> gen(size_t n) {
  std::vector<byte> v; int k = vp::rnd(7), a = 1 + vp::rnd(vp::rnd(2) ? 4 : 255), b0 = vp::rnd(256); int p = 1 + vp::rnd(40); size_t x = 1, y = 1;
  while (v.size() < n) { size_t i = v.size(); switch (k) {
    case 0: v.push_back(b0 + vp::rnd(a)); break;
    case 1: v.push_back(b0 + (i % p) * a); break;
    case 2: v.push_back(vp::rnd(40) ? b0 : b0 + vp::rnd(a)); break;
    case 3: { size_t r = 1 + vp::rnd(vp::rnd(5) ? 6 : 60); byte c = b0 + vp::rnd(a); while (r-- && v.size() < n) v.push_back(c); break; }
    case 4: { /* Fibonacci word */ if (i == 0) { v.push_back(b0); v.push_back(b0 + a); x = 1; y = 2; } else { size_t z = y; for (size_t j = 0; j < x && v.size() < n; ++j) v.push_back(v[j]); x = z; y = v.size(); } break; }
    case 5: v.push_back(vp::rnd(3) ? (i ? v[i - 1 - vp::rnd(std::min<size_t>(i, 9))] : 0) : vp::rnd(2) * 255); break;
    default: if (i > 40 && vp::rnd(3)) { size_t s = vp::rnd(i), l = 1 + vp::rnd(50); for (size_t j = 0; j < l && v.size() < n; ++j) v.push_back(v[s + j]); } else v.push_back(vp::rnd(256)); } }
  v.resize(n); return v;
}
int main(int argc, char **argv) {
  vp::setup(argc, argv);
  { vp::begin("limits"); BWTManager M; CHECK(M.getStartingPoints() == 1, "default"); M.setStartingPoints(0); CHECK(M.getStartingPoints() == 1, "0"); M.setStartingPoints(257); CHECK(M.getStartingPoints() == 256, "257"); for (int i = 1; i <= 256; ++i) { M.setStartingPoints(i); CHECK(M.getStartingPoints() == i, i); } for (int c = 0; c < 256; ++c) CHECK(BWTManager::isValidChoice((char)c) == (c == 'a' || c == 'd' || c == 's'), c); }
  /* all short blocks over two and three letters, with extreme values */
  for (int n = 1; n <= 6; ++n) { int tot = 1; for (int i = 0; i < n; ++i) tot *= 2; for (int k = 0; k < tot; ++k) { std::vector<byte> v; for (int i = 0; i < n; ++i) v.push_back((k >> i & 1) ? 255 : 0); trip(v, 1 + vp::rnd(256), "binary", true); } }
  for (int n = 1; n <= 4; ++n) { int tot = 1; for (int i = 0; i < n; ++i) tot *= 3; for (int k = 0; k < tot; ++k) { std::vector<byte> v; int q = k; for (int i = 0; i < n; ++i, q /= 3) v.push_back("a\x00\xff"[q % 3]); trip(v, 1, "ternary", true); } }
  /* every number of starting points on sizes around the multiples */
  for (int sp = 1; sp <= 256; ++sp) { size_t n = vp::rnd(2) ? 257 + vp::rnd(20) : sp * (2 + vp::rnd(8)) + 257; trip(gen(n - 1 + vp::rnd(3)), sp, "points", true); }
  for (size_t n = 254; n <= 262; ++n) for (int sp : {1, 2, 3, 127, 128, 129, 130, 253, 254, 255, 256}) trip(gen(n), sp, "edge", true);
  for (size_t n = 500; n <= 520; ++n) for (int sp : {255, 256, 2, 3}) trip(gen(n), sp, "edge", true);
  for (size_t n = 1; n <= 300; n += 1 + vp::rnd(2)) trip(gen(n), 1 + vp::rnd(256), "size", true);
  for (int i = 0; i < 4 || vp::more(); ++i) { size_t n = 1 + vp::rndbits(vp::rnd(8) ? 11 : vp::rnd(8) ? 14 : 18); trip(gen(n), 1 + vp::rnd(vp::rnd(2) ? 8 : 256), "random", n < 3000); if (i == 2) trip(gen(vp::thorough ? 17000000 : 400000), 7, "large", false); if (i == 3 && vp::thorough) { std::vector<byte> v(17500000, 'x'); for (int k = 0; k < 3000; ++k) v[vp::rnd(v.size())] = vp::rnd(256); trip(v, 3, "milestones", false); } }
  return vp::done();
}
