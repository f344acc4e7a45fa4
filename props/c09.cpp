// ALL_REPO
#include "common.hpp"
static void slice(size_t n, size_t lim) {
  { std::ostringstream o; o << n << " bytes sliced with limit " << lim; vp::begin(o.str(), n > lim); }
  std::vector<byte> d(n); for (auto &x : d) x = vp::rnd(256); MemIn in(d); PrecompressorBlock b(n + vp::rnd(5), &in);
  CHECK(b.size() == n && b.originalSize() == n, "block holds " << b.size() << " bytes"); CHECK(std::equal(d.begin(), d.end(), b.begin()), "block content");
  for (int rep = 0; rep < 2; ++rep) { b.sliceIntoBlocks(lim); byte *p = b.begin(); for (size_t i = 0; i < b.slices(); ++i) { BWTBlock &s = b.getSlice(i); CHECK(s.begin() == p, "slice " << i << " starts at " << s.begin() - b.begin() << " instead of " << p - b.begin()); CHECK(s.size() >= 1 && s.size() <= lim, "slice " << i << " has " << s.size() << " bytes"); CHECK(!s.isTransformed(), "slice transformed"); p += s.size(); }
    CHECK(p == b.end(), "slices cover " << p - b.begin() << " bytes"); if (n) *b.end() = 0; /* room for the sentinel */ }
}
static void header(uint64 orig, uint64 slices) {
  { std::ostringstream o; o << "header original size " << orig << " slices " << slices; vp::begin(o.str()); }
  PrecompressorBlock b(10); b.m_originalSize = orig; b.m_bwtBlocks.resize(slices); MemOut o; size_t n = b.writeBlockHeader(&o); CHECK(n == o.d.size(), "counted " << n << " of " << o.d.size()); size_t len = o.d.size(); o.d.push_back(5);
  MemIn in(o.d); PrecompressorBlock *r = PrecompressorBlock::readBlockHeader(&in); CHECK(r->originalSize() == orig, "original size " << r->originalSize()); CHECK(r->slices() == slices, "slices " << r->slices()); CHECK(in.p == len, "reader stops at " << in.p << " of " << len); CHECK(r->size() == 0 && r->m_reserved == orig + 1, "memory"); delete r;
}
static void cheader(size_t n, size_t shrink) {
  { std::ostringstream o; o << "header compressed size " << n << " of a block read with " << n + shrink; vp::begin(o.str()); }
  std::vector<byte> d(n + shrink); for (auto &x : d) x = vp::rnd(256); MemIn in0(d); PrecompressorBlock b(n + shrink, &in0); b.setSize(n); MemOut o; size_t k = b.writeBlockHeader(&o, PRECOMP_COMPRESSED_SIZE); CHECK(k == o.d.size(), "counted " << k << " of " << o.d.size()); o.writeBlock(b.begin(), b.end()); size_t len = o.d.size(); o.d.push_back(9);
  MemIn in(o.d); PrecompressorBlock *r = PrecompressorBlock::readBlockHeader(&in, PRECOMP_COMPRESSED_SIZE); CHECK(r->size() == n, "size " << r->size()); CHECK(std::equal(r->begin(), r->end(), d.begin()), "data"); CHECK(in.p == len, "reader stops at " << in.p << " of " << len); delete r;
}
int main(int argc, char **argv) {
  vp::setup(argc, argv);
  { vp::begin("end mark"); MemOut o; CHECK(PrecompressorBlock::writeEmptyHeader(&o) == 1 && o.d.size() == 1, "one byte"); o.d.push_back(77); MemIn in(o.d); PrecompressorBlock *r = PrecompressorBlock::readBlockHeader(&in); CHECK(r->originalSize() == 0 && in.p == 1, "reads as end"); delete r; in.p = 0; r = PrecompressorBlock::readBlockHeader(&in, PRECOMP_COMPRESSED_SIZE); CHECK(r->originalSize() == 0 && in.p == 1, "reads as end"); delete r; }
  if (vp::has("limit") && vp::in("used") < 10000000) slice(vp::in("used"), vp::in("limit"));
  if (vp::has("orig") && vp::in("orig") < (1u << 30) && vp::in("slices") < 100000) { header(vp::in("orig"), vp::in("slices")); cheader(vp::in("used") % 100000, 3); }
  for (size_t n = 0; n <= 70; ++n) for (size_t l = 1; l <= 80; ++l) slice(n, l);
  for (uint64 o : {1ull, 127ull, 128ull, 16383ull, 16384ull, 2097151ull, 2097152ull, 268435455ull, 268435456ull}) for (uint64 s : {1ull, 2ull, 127ull, 128ull, 16384ull, 70000ull}) header(o, s);
  for (size_t n = 1; n < 300; ++n) cheader(n, n % 3);
  for (int i = 0; i < 100 || vp::more(); ++i) { size_t n = vp::rndbits(17); size_t l = 1 + vp::rndbits(17); if (n / l < 3000) slice(n, l); size_t m = 1 + vp::rnd(400); slice(m * (1 + vp::rnd(20)) + vp::rnd(3) - 1, m); header(1 + vp::rndbits(26), 1 + vp::rndbits(12)); cheader(1 + vp::rndbits(15), vp::rnd(3) ? vp::rnd(10) : 0); }
  slice(1000, 0x7ffffffd);
  return vp::done();
}
