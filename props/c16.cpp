// ALL_REPO
#include "common.hpp"
typedef std::vector<bool> BV; typedef WaveletTree<BV> WT; typedef TreeNode<BV> TN;
static std::string runs_label(const std::vector<byte> &v) { std::ostringstream o; o << v.size() << " bytes, fnv " << std::hex << vp::fnv(std::string(v.begin(), v.end())) << std::dec << ", runs"; size_t k = 0; for (size_t i = 0; i < v.size() && k < 120; ++k) { size_t j = i; while (j < v.size() && v[j] == v[i]) ++j; o << " " << (int)v[i] << "x" << (j - i); i = j; } return o.str(); }
static bool same(const TN *a, const TN *b, bool sym) { if (!a || !b) return !a && !b; if (a->m_hasSymbol != b->m_hasSymbol || (sym && a->m_hasSymbol && a->m_symbol != b->m_symbol)) return false; return same(a->m_left, b->m_left, sym) && same(a->m_right, b->m_right, sym); }
static void leaves(const TN *n, BV &p, std::map<uint32, BV> &m) { if (n->m_hasSymbol) { CHECK(!n->m_left && !n->m_right, "a symbol node has children"); CHECK(!m.count(n->m_symbol), "symbol " << n->m_symbol << " has two leaves"); m[n->m_symbol] = p; return; }
  CHECK(n->m_left, "inner node without a left child"); p.push_back(false); leaves(n->m_left, p, m); p.pop_back(); if (n->m_right) { p.push_back(true); leaves(n->m_right, p, m); p.pop_back(); } }
/* codes from lengths: every symbol its own leaf at its length, longest codes to the right */
static void assign(std::vector<std::pair<uint64, uint32> > L) {
  std::ostringstream o; o << "lengths"; for (auto &p : L) o << " " << p.second << ":" << p.first; vp::begin(o.str()); std::vector<std::pair<uint64, uint32> > want(L); WT t; TN *old = t.m_root; t.assignPrefixCodes(L); delete old; WT::collectCodes(t.m_codes, t.m_root);
  std::map<uint32, BV> m; BV p; leaves(t.m_root, p, m); CHECK(m.size() == want.size(), m.size() << " leaves for " << want.size() << " symbols");
  for (auto &w : want) { CHECK(m.count(w.second), "symbol " << w.second << " has no leaf"); CHECK(m[w.second].size() == w.first, "symbol " << w.second << " has a code of " << m[w.second].size() << " bits instead of " << w.first); CHECK(t.m_codes[w.second] == m[w.second], "collected code of " << w.second << " differs from its path"); }
  t.m_integerCodeTree = new TN(); }
static void trip(const std::vector<byte> &v, char model, const char *what) {
  vp::begin(std::string(what) + ", coder " + model + ": " + runs_label(v)); size_t n = v.size();
  WT w(v.data(), n); std::vector<byte> back; size_t len = w.message(std::back_inserter(back)); CHECK(len == n && back == v, "the tree spells another block");
  /* shape */
  BV shape; w.treeShape(shape); Bits in; in.v = shape; for (int i = 0; i < 5; ++i) in.v.push_back(vp::rnd(2)); WT r; size_t bits = r.readShape(in); CHECK(in.p == shape.size(), "shape reader took " << in.p << " of " << shape.size() << " bits"); CHECK(bits == shape.size() || true, "");
  for (int c = 0; c < 256; ++c) CHECK(r.m_codes[c] == w.m_codes[c], "code of byte " << c << " is rebuilt differently"); CHECK(r.m_W == w.m_W, "code parameter " << r.m_W << " for " << w.m_W);
  CHECK(same(r.m_integerCodeTree, w.m_integerCodeTree, true), "code tree of the run lengths is rebuilt differently"); for (auto &p : w.m_integerCodes) CHECK(r.m_integerCodes.count(p.first) && r.m_integerCodes[p.first] == p.second, "code of run length " << p.first << " is rebuilt differently");
  CHECK(r.m_integerCodes.size() == w.m_integerCodes.size(), "another number of run-length codes");
  /* bits, through the entropy encoder's own path; twice on the same coder */
  WaveletEncoder E(model); WaveletDecoder D(model); MemOut o; E.m_destination.connect(&o); E.m_destination.resetCounter(); E.m_compressedBlockLength = 0; std::vector<uint32> st(1, n); if (n > 4 && vp::rnd(2)) { st[0] = 1 + vp::rnd(n - 1); st.push_back(n - st[0]); } if (vp::rnd(3) == 0) st.insert(st.begin() + vp::rnd(st.size() + 1), 0);
  E.encodeData(v.data(), st, &o); CHECK(E.m_compressedBlockLength + E.m_destination.counter() == o.d.size(), "counted " << E.m_compressedBlockLength + E.m_destination.counter() << " bytes of " << o.d.size()); size_t L = o.d.size(); for (int i = 0; i < 16; ++i) o.d.push_back(vp::rnd(256));
  MemIn mi(o.d); D.m_source.connect(&mi); back.clear();
  for (size_t i = 0; i < st.size(); ++i) { if (!st[i]) continue; size_t rs = utils::unpackInteger(D.readPackedInteger(&mi)); WT q; q.readShape(mi); mi.flushBuffer(); D.m_source.start(); q.decodeTreeBF(rs, D.m_source, *D.m_probModel, *D.m_integerProbModel, *D.m_gapProbModel);
    size_t b = back.size(), k = q.message(std::back_inserter(back)); CHECK(k == st[i] && back.size() == b + k, "section " << i << " gives " << k << " bytes instead of " << st[i]); CHECK(std::equal(back.begin() + b, back.end(), v.begin() + b), "section " << i << " is restored differently"); D.endContextBlock(); }
  CHECK(mi.p == L, "decoder stops at " << mi.p << " of " << L); }
static std::vector<byte> from(const std::vector<std::pair<int, uint32> > &r) { std::vector<byte> v; for (auto &p : r) v.insert(v.end(), p.second, (byte)p.first); return v; }
/* runs with a chosen distribution of lengths and symbols */
static std::vector<byte> gen(size_t target) {
  std::vector<byte> v; int nl = 1 + vp::rnd(vp::rnd(3) ? 6 : 40), ns = 1 + vp::rnd(vp::rnd(2) ? 4 : 256), kind = vp::rnd(5), b0 = vp::rnd(256); std::vector<uint32> ls; std::vector<int> sy; uint32 top = 1 + vp::rndbits(vp::rnd(4) ? 5 : vp::rnd(3) ? 9 : 13);
  for (int i = 0; i < nl; ++i) ls.push_back(1 + vp::rnd(vp::rnd(3) ? std::min(top, 12u) : top)); for (int i = 0; i < ns; ++i) sy.push_back((b0 + i * (1 + vp::rnd(3))) & 255); int last = -1;
  while (v.size() < target) { size_t a, c; switch (kind) { case 0: a = vp::rnd(nl); c = vp::rnd(ns); break; case 1: a = std::min<size_t>(nl - 1, __builtin_ctz(vp::rnd(1u << 30) | 1u << 29)); c = vp::rnd(ns); break; case 2: a = vp::rnd(nl); c = std::min<size_t>(ns - 1, __builtin_ctz(vp::rnd(1u << 30) | 1u << 29)); break;
      case 3: a = std::min<size_t>(nl - 1, __builtin_ctz(vp::rnd(1u << 30) | 1u << 29)); c = std::min<size_t>(ns - 1, __builtin_ctz(vp::rnd(1u << 30) | 1u << 29)); break; default: a = vp::rnd(12) ? 0 : vp::rnd(nl); c = vp::rnd(9) ? 0 : vp::rnd(ns); }
    int s = sy[c]; if (s == last && ns > 1 && vp::rnd(2)) { c = vp::rnd(ns); s = sy[c]; } v.insert(v.end(), ls[a], (byte)s); last = s; }
  return v; }
int main(int argc, char **argv) {
  vp::setup(argc, argv); const char *M = "mMuUbB"; int mi = 0;
  for (int n = 1; n <= 9; ++n) for (int k = 0; k < (1 << n); ++k) { std::vector<byte> v; for (int i = 0; i < n; ++i) v.push_back((k >> i & 1) ? 255 : 0); if (n < 7 || k % 5 == 0) trip(v, M[mi++ % 6], "binary"); }
  for (int n = 1; n <= 5; ++n) for (int k = 0, t = pow(4, n); k < t; ++k) { std::vector<byte> v; for (int i = 0, q = k; i < n; ++i, q /= 4) v.push_back("\x00" "\x01" "\x80" "\xff"[q % 4]); if (n < 5 || k % 7 == 0) trip(v, M[mi++ % 6], "four letters"); }
  /* one run of every size around the powers of two, alone and next to others */
  for (int e = 0; e < 18; ++e) for (int d = -1; d <= 1; ++d) { long l = (1l << e) + d; if (l < 1) continue; trip(from({{7, (uint32)l}}), M[mi++ % 6], "one run"); trip(from({{7, 1}, {8, (uint32)l}, {7, 2}}), M[mi++ % 6], "three runs"); }
  for (int s = 1; s <= 256; s += s < 8 ? 1 : 1 + vp::rnd(20)) { std::vector<byte> v; for (int i = 0; i < s; ++i) v.push_back(i); trip(v, M[mi++ % 6], "alphabet"); for (int i = 0; i < s; ++i) v.insert(v.end(), 1 + vp::rnd(4), vp::rnd(s)); trip(v, M[mi++ % 6], "alphabet"); }
  { std::vector<byte> v; for (int i = 0; i < 256; ++i) v.push_back(i); trip(v, 'B', "alphabet"); }
  /* run lengths that earn codes of their own: frequencies and values in every order */
  for (int i = 0; i < 250 || (vp::thorough && i < 4000); ++i) { int k = 1 + vp::rnd(5); std::vector<std::pair<int, uint32> > r; uint32 f[6], l[6]; for (int j = 0; j < k; ++j) { f[j] = 1 + vp::rnd(vp::rnd(2) ? 12 : 400); l[j] = 1 + vp::rnd(vp::rnd(2) ? 6 : vp::rnd(3) ? 40 : 700); } bool any = true; int s = 0; while (any) { any = false; for (int j = 0; j < k; ++j) if (f[j]) { --f[j]; any = true; r.push_back({(s = (s + 1 + vp::rnd(2)) % 5), l[j]}); } } std::vector<byte> v = from(r); if (v.size() < 60000) trip(v, M[mi++ % 6], "earned codes"); }
  /* lengths of complete codes */
  for (int i = 0; i < 400; ++i) { int n = 1 + vp::rnd(vp::rnd(3) ? 8 : 256); std::vector<uint64> d; if (n == 1) d.push_back(1); else { d.push_back(0); while ((int)d.size() < n) { size_t j = vp::rnd(4) ? vp::rnd(d.size()) : std::max_element(d.begin(), d.end()) - d.begin(); if (d[j] >= 60) continue; ++d[j]; d.push_back(d[j]); } } std::vector<int> s(256); for (int j = 0; j < 256; ++j) s[j] = j; for (int j = 0; j < 256; ++j) std::swap(s[j], s[vp::rnd(256)]); std::vector<std::pair<uint64, uint32> > L; for (int j = 0; j < n; ++j) L.push_back({d[j], (uint32)s[j]}); assign(L); }
  for (int i = 0; i < 150 || vp::more(); ++i) trip(gen(1 + vp::rndbits(vp::rnd(6) ? 11 : 15)), M[mi++ % 6], "random");
  return vp::done();
}
