// ALL_REPO
#include "common.hpp"
static void run(const std::vector<byte> &d) {
  vp::begin("block " + std::to_string(d.size()) + " bytes " + vp::hex(&d[0], d.size()), d.size() > 1);
  size_t n = d.size(); byte *src = new byte[n]; std::copy(d.begin(), d.end(), src);
  std::vector<std::pair<byte, uint32> > R; for (size_t i = 0; i < n;) { size_t j = i; while (j < n && d[j] == d[i]) ++j; R.push_back(std::make_pair(d[i], (uint32)(j - i))); i = j; }
  std::vector<uint64> e(256, 0); std::map<uint32, uint32> m; for (auto &r : R) { ++e[r.first]; ++m[r.second]; }
  uint64 off = vp::rnd(2) ? 5 : 0;
  std::vector<uint64> f(256, off); utils::calculateRunFrequencies(&f[0], src, n); for (int s = 0; s < 256; ++s) CHECK(f[s] == e[s] + off, "calculateRunFrequencies: symbol " << s << " counted " << f[s] - off << " times instead of " << e[s]);
  std::vector<uint64> g(256, off); std::map<uint32, uint32> q; size_t tot = utils::calculateRunsAndCharacters(&g[0], src, n, q);
  for (int s = 0; s < 256; ++s) CHECK(g[s] == e[s] + off, "calculateRunsAndCharacters: symbol " << s << " counted " << g[s] - off << " times instead of " << e[s]); CHECK(q == m, "run length counts differ"); CHECK(tot == R.size(), "total of " << tot << " runs instead of " << R.size());
  std::vector<uint64> h(256, off); byte *rs = new byte[n]; uint32 *rl = new uint32[n]; uint64 k = utils::calculateRunFrequenciesAndStoreRuns(&h[0], rs, rl, src, n);
  for (int s = 0; s < 256; ++s) CHECK(h[s] == e[s] + off, "calculateRunFrequenciesAndStoreRuns: symbol " << s << " counted " << h[s] - off << " times instead of " << e[s]);
  CHECK(k == R.size(), k << " runs stored instead of " << R.size()); for (size_t i = 0; i < k; ++i) CHECK(rs[i] == R[i].first && rl[i] == R[i].second, "stored run " << i << " is " << (int)rs[i] << "^" << rl[i] << " instead of " << (int)R[i].first << "^" << R[i].second);
  { WaveletTree<std::vector<bool> > t(src, n); std::vector<byte> r; t.message(std::back_inserter(r)); CHECK(r == d, "pushed runs expand to " << r.size() << " bytes, not the block"); }
  delete[] src; delete[] rs; delete[] rl;
}
int main(int argc, char **argv) {
  vp::setup(argc, argv);
  for (int n = 1; n <= (vp::thorough ? 9 : 7); ++n) { int t = 1; for (int i = 0; i < n; ++i) t *= 3; for (int k = 0; k < t; ++k) { std::vector<byte> d; int x = k; for (int i = 0; i < n; ++i, x /= 3) d.push_back(x % 3 == 0 ? 0 : x % 3 == 1 ? 'a' : 255); run(d); } }
  for (int i = 0; i < 200 || vp::more(); ++i) { std::vector<byte> d; size_t n = 1 + vp::rnd(vp::rnd(8) ? 300 : 5000); unsigned al = 1 + vp::rnd(256), mr = vp::rnd(13); while (d.size() < n) { size_t l = 1 + vp::rndbits(mr); byte c = vp::rnd(al); while (l-- && d.size() < n) d.push_back(c); } run(d); }
  for (size_t n : {65535u, 65536u, 65537u, 100000u}) { std::vector<byte> d(n, 'x'); run(d); d.back() = 'y'; run(d); d[0] = 'z'; run(d); }
  return vp::done();
}
