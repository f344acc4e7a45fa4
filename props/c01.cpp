// ALL_REPO: links the C sources of the suffix sorter
#include "common.hpp"
static unsigned vlen(uint64 x){ unsigned n=1; while(x>>=7) ++n; return n; }
static WaveletEncoder *we; static WaveletDecoder *wd; static HuffmanEncoder *he; static HuffmanDecoder *hd;
static void one(uint64 x) {
  { std::ostringstream o; o << "x=" << x; vp::begin(o.str(), x > 127); }
  byte buf[24]; memset(buf, 0xA5, sizeof buf);
  unsigned n = utils::packAndWriteInteger(x, buf);
  CHECK(n == vlen(x), "packAndWriteInteger wrote " << n << " bytes");
  CHECK(buf[n] == 0xA5, "packAndWriteInteger wrote past its length");
  uint64 y = 1; unsigned m = utils::readAndUnpackInteger(buf, &y);
  CHECK(m == n && y == x, "readAndUnpackInteger gave " << y << " in " << m << " bytes");
  if (x >> 56) return;
  int k = -1; uint64 p = utils::packInteger(x, &k);
  CHECK(k == (int)vlen(x), "packInteger length " << k);
  CHECK(utils::unpackInteger(p) == x, "unpackInteger gave " << utils::unpackInteger(p));
  memset(buf, 0xA5, sizeof buf); utils::writePackedInteger(p, buf);
  CHECK(buf[k] == 0xA5, "writePackedInteger wrote past its length");
  CHECK(utils::unpackInteger(utils::readPackedInteger(buf)) == x, "readPackedInteger(byte*)");
  { MemOut o; we->writePackedInteger(p, &o); CHECK(o.d.size() == (size_t)k, "WaveletEncoder::writePackedInteger length"); MemIn i; i.d = o.d;
    CHECK(utils::unpackInteger(wd->readPackedInteger(&i)) == x && i.p == i.d.size(), "WaveletDecoder::readPackedInteger"); }
  { MemOut o; he->writePackedInteger(p, &o); CHECK(o.d.size() == (size_t)k, "HuffmanEncoder::writePackedInteger length"); MemIn i; i.d = o.d;
    CHECK(utils::unpackInteger(hd->readPackedInteger(&i)) == x && i.p == i.d.size(), "HuffmanDecoder::readPackedInteger");
    MemIn j; j.d = o.d; size_t br = 99; CHECK(utils::readPackedInteger(j, br) == x && br == (size_t)k && j.p == j.d.size(), "readPackedInteger(bits)"); }
  { Bits b; utils::pushBitsRev(b, p, 8*k); size_t br = 99; CHECK(utils::readPackedIntegerRev(b, br) == x && br == (size_t)k && b.p == b.v.size(), "readPackedIntegerRev"); }
}
int main(int argc, char **argv) {
  vp::setup(argc, argv);
  we = new WaveletEncoder('B'); wd = new WaveletDecoder(); he = new HuffmanEncoder(); hd = new HuffmanDecoder();
  if (vp::has("x")) { one(vp::in("x")); return vp::done(); }
  for (unsigned b = 0; b < 64; ++b) for (int d = -3; d <= 3; ++d) one((1ull << b) + d);
  for (uint64 x = 0; x < 70000; ++x) one(x);
  one(~0ull);
  while (vp::more()) for (int i = 0; i < 200; ++i) one(vp::rndbits(64));
  return vp::done();
}
