// ALL_REPO
#include "common.hpp"
static std::string path;
static void run(uint64_t sd) {
  vp::s0 = sd * 0x9E3779B97F4A7C15ull + 777; for (int i = 0; i < 4; ++i) vp::rnd();
  int c = vp::rnd(6); size_t n = c == 0 ? vp::rnd(20) : c == 1 ? 65536 - 3 + vp::rnd(6) : c == 2 ? 131072 - 3 + vp::rnd(6) : c == 3 ? vp::rnd(200000) : vp::rnd(2000);
  std::vector<byte> d(n); for (auto &x : d) x = vp::rnd(3) ? vp::rnd(256) : 255;
  { std::ostringstream o; o << "file of " << n << " bytes, read sequence seed " << sd; vp::begin(o.str(), n > 0); }
  { FILE *f = fopen(path.c_str(), "wb"); if (n) fwrite(&d[0], 1, n, f); fclose(f); }
  RawInStream s(path); size_t pos = 0, bits = 0;   // pos: bytes fetched, bits: unread bits of byte pos-1
  std::ostringstream o; o << "file of " << n << " bytes, seed " << sd << ":";
  auto bit = [&](size_t P) -> unsigned { return (d[P / 8] >> (7 - P % 8)) & 1; };
  for (int k = 0; k < 4000; ++k) { int op = vp::rnd(8); size_t P = 8 * pos - bits;
    if (op == 0) { size_t m = 1 + vp::rnd(30); for (size_t i = 0; i < m && (bits || pos < n); ++i) { P = 8 * pos - bits; if (!bits) { ++pos; bits = 8; } --bits; bool b = s.readBit(); CHECK(b == bit(P), "bit " << P << " is " << b); } }
    else if (op <= 2) { size_t m = 1 + vp::rnd(300); for (size_t i = 0; i < m && pos < n; ++i) { P = 8 * pos - bits; unsigned e = 0; for (int j = 0; j < 8; ++j) e = (e << 1) | bit(P + j); byte b = s.readByte(); ++pos; CHECK(b == e, "byte at bit " << P << " is " << (int)b << " instead of " << e); } }
    else if (op == 3) { s.flushBuffer(); bits = 0; }
    else if (op <= 5 && bits == 0) { size_t m = vp::rnd(4) ? vp::rnd(500) : vp::rnd(90000); std::vector<byte> t(m + 1, 0xEE); size_t r = s.readBlock(&t[0], m); size_t e = std::min(m, n - pos); CHECK(r == e, "readBlock(" << m << ") returned " << r << " instead of " << e); for (size_t i = 0; i < r; ++i) CHECK(t[i] == d[pos + i], "block byte " << pos + i); CHECK(t[m] == 0xEE, "readBlock wrote past its limit"); pos += r; }
    else if (op == 6 && bits == 0 && n - pos >= 6) { uint64 v = 0; for (int i = 0; i < 6; ++i) v = (v << 8) | d[pos + i]; pos += 6; CHECK(s.read48bits() == v, "48-bit word ending at " << pos); }
    else if (op == 7) { bool e = s.compressedDataEnding(); CHECK(!e || n - pos <= 1, "end reported with " << n - pos << " bytes left"); CHECK(e || pos < n, "end not reported"); if (pos >= n && bits == 0) break; } }
}
int main(int argc, char **argv) {
  vp::setup(argc, argv); char dir[] = "/tmp/vp_c05_XXXXXX"; if (!mkdtemp(dir)) return 2; path = std::string(dir) + "/f";
  uint64_t k = vp::seed * 1000003ull; for (int i = 0; i < 60 || vp::more(); ++i) run(k++);
  unlink(path.c_str()); rmdir(dir); return vp::done();
}
