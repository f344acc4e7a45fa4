// ALL_REPO
#include "common.hpp"
static std::string lab(const std::vector<byte> &v) { std::ostringstream o; o << v.size() << " bytes, fnv " << std::hex << vp::fnv(std::string(v.begin(), v.end())) << " "; return o.str() + (v.size() <= 400 ? vp::hex(v.data(), v.size()) : vp::hex(v.data(), 100)); }
static void roundtrip(const std::vector<byte> &v, const std::string &opts, const std::string &what) {
  vp::begin(what + " opts '" + opts + "' " + lab(v)); MemIn in(v); Precompressor p(opts); PrecompressorBlock *b = p.readBlock(v.size(), &in);
  CHECK(b->originalSize() == v.size(), "original size " << b->originalSize()); CHECK(b->size() <= v.size(), "block grew to " << b->size());
  std::vector<byte> d(b->begin(), b->end()); /* exact-size copy: reads past the end are caught */
  MemOut o; { Postprocessor q(false, b->grammar()); size_t n = q.uncompress(&d[0], d.size(), &o); CHECK(n == o.d.size(), "reported " << n << " of " << o.d.size() << " bytes"); }
  CHECK(o.d.size() == v.size(), "restored " << o.d.size() << " bytes"); for (size_t i = 0; i < v.size(); ++i) CHECK(o.d[i] == v[i], "byte " << i << " differs");
  MemOut g; b->writeBlockHeader(&g, PRECOMP_COMPRESSED_SIZE); g.writeBlock(b->begin(), b->end()); MemIn gi(g.d); PrecompressorBlock *c = PrecompressorBlock::readBlockHeader(&gi, PRECOMP_COMPRESSED_SIZE);
  CHECK(c->size() == d.size() && std::equal(d.begin(), d.end(), c->begin()), "replaced block read back"); CHECK(gi.p == g.d.size(), "rest unread");
  MemOut o2; { Postprocessor q(false, c->grammar()); q.uncompress(c->begin(), c->size(), &o2); } CHECK(o2.d == v, "restored with the grammar read back");
  delete b; delete c;
}
/* in place and to a second buffer: the same output (here the last byte's entry is a special pair; every fill of the output buffer) */
static void both(size_t reps, size_t f, int last) {
  std::vector<byte> v; for (int q = 0; q < 2; ++q) for (int i = 0; i < 256; ++i) if (i != last) v.push_back(i);
  for (size_t i = 0; i < reps; ++i) { v.push_back('a'); v.push_back('b'); } for (size_t i = 0; i < f; ++i) v.push_back('d' + i % 90); v.push_back(last);
  std::ostringstream n; n << "in place: " << reps << " pairs, " << f << " others, last byte " << last; vp::begin(n.str());
  Grammar g; PairReplacer r(g, false); r.analyseData(&v[0], v.size()); r.finishAnalysation(); if (!r.decideReplacements()) return;
  std::vector<byte> d(v.size() * 2), w = v; size_t a = r.writeReplacedVersion((const byte*)&v[0], v.size(), &d[0]), b = r.writeReplacedVersion(&w[0], w.size());
  CHECK(a == b && a <= v.size() && std::equal(d.begin(), d.begin() + a, w.begin()), "lengths " << a << " and " << b);
}
/* blocks whose pairs are frequent enough to be replaced */
static std::vector<byte> block(size_t n, int alpha, int full, int npairs, int last) {
  std::vector<byte> v; std::vector<std::pair<int, int> > P; for (int i = 0; i < npairs; ++i) P.push_back(std::make_pair(vp::rnd(alpha), vp::rnd(alpha)));
  while (v.size() < n) { if (vp::rnd(8)) { size_t k = vp::rnd(P.size()); if (vp::rnd(3) == 0) k = std::min<size_t>(k, vp::rnd(P.size())); v.push_back(P[k].first); v.push_back(P[k].second); } else v.push_back(vp::rnd(alpha)); }
  if (full) for (int i = 0; i < 256; ++i) v.insert(v.begin() + vp::rnd(v.size() + 1), i); v.resize(n); if (last >= 0) v.back() = last; return v;
}
int main(int argc, char **argv) {
  vp::setup(argc, argv);
  /* very short blocks */
  for (int n = 1; n <= 6; ++n) for (int k = 0; k < 60; ++k) { std::vector<byte> v; int a = 1 + vp::rnd(3); for (int i = 0; i < n; ++i) v.push_back(vp::rnd(a) * (vp::rnd(2) ? 1 : 127)); roundtrip(v, std::string(vp::rnd(4), 'p'), "short"); }
  const char *O[] = {"", "p", "pp", "ppp", "pppp", "pppppppppp"};
  for (int f = 1470; f < 1520; ++f) both(2000, f, 255);
  for (int k = 0; k < (vp::thorough ? 4000 : 300); ++k) { size_t r = 1300 + vp::rnd(1500); long x = 3 * (long)r - 4502 + vp::rnd(60) - 30; both(r, vp::rnd(2) && x > 0 ? x : vp::rnd(3000), vp::rnd(3) ? 255 : vp::rnd(256)); }
  double t0 = vp::now(), tot = vp::t_end - t0;
  /* rare symbol at the end of a block that uses all byte values, every fill of the output buffer */
  for (int k = 0; k < (vp::thorough ? 3000 : 900) && vp::now() < t0 + tot * 0.5; ++k) { std::vector<byte> v; for (int i = 0; i < 256; ++i) v.push_back(i); size_t reps = 1200 + vp::rnd(200); for (size_t i = 0; i < reps; ++i) { v.push_back('a'); v.push_back('b'); if (vp::rnd(2)) v.push_back('c' + vp::rnd(3)); } size_t f = vp::rnd(2000); for (size_t i = 0; i < f; ++i) v.push_back('d' + i % 90); if (vp::rnd(2)) v.push_back(200 + vp::rnd(50)); else v.push_back(vp::rnd(256)); roundtrip(v, "p", "full alphabet"); }
  for (int i = 0; i < 12 || vp::more(); ++i) {
    size_t n = vp::rnd(4) ? 3000 + vp::rnd(60000) : 1 + vp::rnd(5000); if (vp::rnd(12) == 0) n = 200000 + vp::rnd(400000); int alpha = 2 + (vp::rnd(2) ? vp::rnd(254) : vp::rnd(20));
    roundtrip(block(n, alpha, vp::rnd(3), 1 + vp::rnd(vp::rnd(2) ? 8 : 60), vp::rnd(2) ? -1 : vp::rnd(256)), O[vp::rnd(6)], "pairs");
    if (vp::rnd(4) == 0) { std::vector<byte> v; size_t m = 2500 + vp::rnd(9000); int p = 1 + vp::rnd(4); for (size_t k = 0; k < m; ++k) v.push_back((vp::rnd(60) ? k % p : vp::rnd(256))); if (vp::rnd(2)) for (int k = 0; k < 256; ++k) v.push_back(k); roundtrip(v, O[vp::rnd(6)], "runs"); }
  }
  return vp::done();
}
