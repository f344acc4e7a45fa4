// ALL_REPO
#include "common.hpp"
static std::string path;
static void run(uint64_t sd) {
  vp::s0 = sd * 0x9E3779B97F4A7C15ull + 12345; for (int i = 0; i < 4; ++i) vp::rnd();
  std::ostringstream o; o << "seed " << sd << " ops:"; std::vector<byte> ref; size_t nops = 1 + vp::rnd(40); size_t lim = vp::rnd(3) ? 70000 : 400000;
  { std::ostringstream d; d << "operation sequence with seed " << sd; vp::begin(d.str()); }
  { RawOutStream s(path);
    for (size_t k = 0; k < nops && ref.size() < lim; ++k) { int op = vp::rnd(7);
      if (op <= 1) { size_t n = vp::rnd(3) ? vp::rnd(40) : 65536 - (ref.size() % 65536) - 2 + vp::rnd(4); if (n > 70000) n = 3; o << " b" << n; vp::describe(o.str()); while (n--) { byte b = vp::rnd(256); s.writeByte(b); ref.push_back(b); } }
      else if (op <= 3) { size_t n; int c = vp::rnd(5); n = c == 0 ? vp::rnd(10) : c == 1 ? 65536 - 3 + vp::rnd(6) : c == 2 ? 65536 - (ref.size() % 65536) - 2 + vp::rnd(4) : c == 3 ? vp::rnd(140000) : vp::rnd(3000); if (n > 200000) n = 0; o << " B" << n; vp::describe(o.str());
        std::vector<byte> v(n + 1); for (auto &x : v) x = vp::rnd(256); s.writeBlock(&v[0], &v[0] + n); ref.insert(ref.end(), v.begin(), v.begin() + n); }
      else if (op == 4) { o << " pos"; vp::describe(o.str()); long p = s.getPos(); CHECK(p == (long)ref.size(), "position " << p << " after " << ref.size() << " bytes"); }
      else if (op == 5) { o << " flush"; vp::describe(o.str()); s.flush(); }
      else if (ref.size() >= 6) { size_t at = vp::rnd(2) ? vp::rnd(ref.size() - 5) : ref.size() - 6; uint64 v = vp::rnd() & 0xFFFFFFFFFFFFull; o << " patch@" << at; vp::describe(o.str()); s.write48bits(v, at); for (int i = 0; i < 6; ++i) ref[at + i] = (v >> (8 * (5 - i))) & 0xff; } } }
  std::ifstream f(path.c_str(), std::ios::binary); std::vector<byte> got((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  CHECK(got.size() == ref.size(), "file has " << got.size() << " bytes instead of " << ref.size());
  for (size_t i = 0; i < ref.size(); ++i) CHECK(got[i] == ref[i], "byte " << i << " is " << (int)got[i] << " instead of " << (int)ref[i]);
}
int main(int argc, char **argv) {
  vp::setup(argc, argv); char dir[] = "/tmp/vp_c04_XXXXXX"; if (!mkdtemp(dir)) return 2; path = std::string(dir) + "/f";
  uint64_t k = vp::seed * 1000003ull; for (int i = 0; i < 60 || vp::more(); ++i) run(k++);
  unlink(path.c_str()); rmdir(dir); return vp::done();
}
