// ALL_REPO
#include "common.hpp"
struct Seq { std::vector<std::pair<bool, Probability> > v; };
static void run(const std::vector<Seq> &ss) {
  { std::ostringstream o; size_t n = 0; for (auto &s : ss) { o << "["; for (auto &x : s.v) { if (n++ < 600) o << x.first << "@" << x.second << " "; } o << "]"; } vp::begin(o.str(), n > 1); }
  MemOut out; dcsbwt::BitEncoder e; e.connect(&out); std::vector<size_t> ends;
  for (auto &s : ss) { size_t b = out.d.size(); e.resetCounter(); for (auto &x : s.v) e.encode(x.first, x.second); e.finish(); CHECK(e.counter() == out.d.size() - b, "counter " << e.counter() << " but " << out.d.size() - b << " bytes were written"); ends.push_back(out.d.size()); }
  MemIn in(out.d); dcsbwt::BitDecoder d; d.connect(&in);
  for (size_t k = 0; k < ss.size(); ++k) { d.start(); for (size_t i = 0; i < ss[k].v.size(); ++i) { bool b = d.decode(ss[k].v[i].second); CHECK(b == ss[k].v[i].first, "sequence " << k << " bit " << i << " decoded wrongly"); }
    CHECK(in.p == ends[k], "sequence " << k << ": decoder stopped at byte " << in.p << ", encoder at " << ends[k]); }
}
int main(int argc, char **argv) {
  vp::setup(argc, argv);
  if (vp::has("p") && vp::has("low")) {   // one coder step from an arbitrary state
    uint32 low = vp::in("low"), high = vp::in("high"), p = vp::in("p"); bool bit = vp::in("bit"); uint32 fut = vp::in("future");
    { std::ostringstream o; o << "state [" << low << "," << high << "] p=" << p << " bit=" << bit << " continuation=" << fut; vp::begin(o.str()); }
    MemOut out; dcsbwt::BitEncoder e; e.connect(&out); e.m_low = low; e.m_high = high; e.m_counter = 0; e.encode(bit, p); size_t k = out.d.size();
    CHECK(e.m_counter == k, "counter"); CHECK(e.m_low < e.m_high, "encoder interval empty");
    if (vp::has("future") && fut >= e.m_low && fut <= e.m_high) { for (int i = 0; i < 4; ++i) out.writeByte(fut >> (24 - 8*i)); }
    else { MemOut o2 = out; e.finish(); }
    MemIn in(out.d); dcsbwt::BitDecoder d; d.connect(&in); d.start(); d.m_low = low; d.m_high = high;
    CHECK(d.m_next >= low && d.m_next <= high, "emitted bytes leave the interval");
    CHECK(d.decode(p) == bit, "decoded bit differs"); CHECK(in.p == 4 + k, "decoder consumed " << in.p << " bytes, encoder emitted " << k << "+4");
    return vp::done();
  }
  for (int p : {0, 1, 2, 100, 2048, 4000, 4094, 4095, 4096}) for (int b = 0; b < 2; ++b) for (int n : {0, 1, 2, 3, 7, 50, 300}) { Seq s; for (int i = 0; i < n; ++i) s.v.push_back(std::make_pair(b, p)); run(std::vector<Seq>(1, s)); run(std::vector<Seq>(3, s)); }
  while (vp::more()) {
    std::vector<Seq> ss(1 + vp::rnd(3));
    for (auto &s : ss) { size_t n = vp::rnd(vp::rnd(4) ? 60 : 4000); int mode = vp::rnd(5); int fixed = vp::rnd(4097);
      for (size_t i = 0; i < n; ++i) { int p = mode == 0 ? vp::rnd(4097) : mode == 1 ? fixed : mode == 2 ? (vp::rnd(2) ? 0 : 4096) : mode == 3 ? (int)vp::rnd(3) : 4096 - (int)vp::rnd(3);
        bool b = vp::rnd(3) == 0 ? vp::rnd(2) : (vp::rnd(4096) < (uint64)p); s.v.push_back(std::make_pair(b, p)); } }
    run(ss);
  }
  return vp::done();
}
