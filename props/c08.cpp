// ALL_REPO
#include "common.hpp"
static void lf(const std::vector<uint32> &v) {
  vp::begin("starting points " + vp::join(v)); BWTBlock b; b.LFpowers() = v; MemOut o; size_t n = b.writeHeader(&o);
  CHECK(n == o.d.size(), "counted " << n << " bytes of " << o.d.size()); size_t len = o.d.size(); for (int i = 0; i < 3; ++i) o.d.push_back(vp::rnd(256));
  MemIn in(o.d); BWTBlock c; c.LFpowers().assign(vp::rnd(5), 9); c.readHeader(&in); CHECK(c.LFpowers() == v, "read back as " << vp::join(c.LFpowers())); CHECK(in.p == len && in.bits == 0, "reader stops at " << in.p << " of " << len);
}
template <class E, class D> static void sect(E &e, D &d, const std::vector<uint32> &f, const char *nm) {
  vp::begin(std::string(nm) + " distribution " + vp::join(f)); uint64 tot = 0; for (auto x : f) tot += x;
  BWTBlock b; b.LFpowers().assign(1 + vp::rnd(3), vp::rnd(1u << 31)); std::vector<uint32> st(f); MemOut o; size_t pre = vp::rnd(4); for (size_t i = 0; i < pre; ++i) o.writeByte(1);
  e.writeBlockHeader(b, st, &o); uint64 sum = 0; for (auto x : st) { sum += x; CHECK(x > 0, "empty section"); } CHECK(sum == tot, "sections add up to " << sum << " instead of " << tot); CHECK(st.size() >= 1 && st.size() <= 256, st.size() << " sections");
  CHECK(e.m_compressedBlockLength == o.d.size() - pre - 6, "counted header length " << e.m_compressedBlockLength << " instead of " << o.d.size() - pre - 6); uint64 L = e.m_compressedBlockLength; e.finishBlock(&o);
  uint64 w = 0; for (int i = 0; i < 6; ++i) w = w << 8 | o.d[pre + i]; CHECK(w == L, "length field " << w << " instead of " << L); size_t len = o.d.size(); o.d.push_back(7);
  MemIn in(o.d); in.p = pre; BWTBlock c; std::vector<uint64> r; uint64 cl = d.readBlockHeader(c, &r, &in); CHECK(cl == L, "length " << cl); CHECK(r.size() == st.size() && std::equal(st.begin(), st.end(), r.begin()), "sections read back as " << vp::join(r) << " instead of " << vp::join(st)); CHECK(in.p == len, "reader stops at " << in.p << " of " << len); CHECK(c.LFpowers() == b.LFpowers(), "starting points differ");
}
int main(int argc, char **argv) {
  vp::setup(argc, argv);
  for (uint32 len : {1u, 2u, 255u, 256u, 257u, 258u, 1000u, 0x7ffffffeu}) for (uint32 sp : {0u, 1u, 2u, 8u, 255u, 256u, 257u, 1000u, 0xffffffffu}) { std::ostringstream o; o << "prepareLFpowers(" << sp << ") for " << len << " bytes"; vp::begin(o.str()); BWTBlock b(0, len, false); b.prepareLFpowers(sp); size_t n = b.LFpowers().size(); CHECK(n >= 1 && n <= 256 && (n == 1 || n < len), n << " starting points"); }
  for (int n = 1; n <= 256; ++n) { std::vector<uint32> v(n); for (int s = 0; s < 3; ++s) { for (auto &x : v) x = s == 0 ? vp::rnd(1u << 31) : s == 1 ? 0x7fffffff : vp::rndbits(31); lf(v); } v.assign(n, 0); lf(v); v[n - 1] = 1; lf(v); }
  HuffmanEncoder he; HuffmanDecoder hd; WaveletEncoder we('m'); WaveletDecoder wd('m');
  for (int i = 0; i < 300 || vp::more(); ++i) {
    std::vector<uint32> f(256, 0); int s = vp::rnd(7); uint64 room = 0x7ffffffe;
    for (int k = 0; k < 256; ++k) { uint32 x = s == 0 ? 10000 : s == 1 ? vp::rnd(20000) : s == 2 ? (vp::rnd(4) ? 0 : vp::rndbits(20)) : s == 3 ? 9999 + vp::rnd(3) : s == 4 ? vp::rnd(3) : s == 5 ? vp::rndbits(23) : (k == (int)vp::rnd(256) ? vp::rndbits(30) : 0); if (x > room) x = room; room -= x; f[k] = x; }
    if (room == 0x7ffffffe) f[vp::rnd(256)] = 1; sect(he, hd, f, "huffman"); sect(we, wd, f, "wavelet");
    std::vector<uint32> v(1 + vp::rnd(256)); for (auto &x : v) x = vp::rndbits(31); lf(v); }
  for (uint32 x : {1u, 127u, 128u, 9999u, 10000u, 10001u, 16383u, 16384u, 0x7ffffffeu}) for (int k : {0, 128, 255}) { std::vector<uint32> f(256, 0); f[k] = x; sect(he, hd, f, "huffman"); sect(we, wd, f, "wavelet"); }
  return vp::done();
}
