// ALL_REPO
#include "common.hpp"
static std::vector<std::pair<uint16, byte> > freed(const Grammar &g) { std::vector<std::pair<uint16, byte> > v; g.freedSymbols(v); return v; }
static void roundtrip(const Grammar &g) {
  MemOut o; size_t n = g.writeGrammar(&o); CHECK(n == o.d.size(), "counted " << n << " bytes, wrote " << o.d.size()); size_t len = o.d.size(); for (int i = 0; i < 5; ++i) o.d.push_back(vp::rnd(256));
  MemIn in(o.d); Grammar h; h.readGrammar(&in); CHECK(in.p == len, "reader stops at " << in.p << " of " << len);
  CHECK(h.m_specialSymbols == g.m_specialSymbols, "special symbols differ"); for (int i = 0; i < 256; ++i) CHECK(h.isSpecial(i) == g.isSpecial(i), "special mark of " << i);
  CHECK(h.numberOfRules() == g.numberOfRules(), "number of rules");
  for (size_t i = 0; i < g.m_rules.size(); ++i) { Grammar::Rule a = g.getRule(i), b = h.getRule(i); CHECK(a.variable() == b.variable() && a.isLarge() == b.isLarge(), "variable of rule " << i << ": " << b.variable() << " instead of " << a.variable()); CHECK(a.length() == b.length() && std::equal(a.begin(), a.end(), b.begin()), "right side of rule " << i); }
  CHECK(freed(g) == freed(h), "freed symbols differ"); CHECK(g.numberOfFreedSymbols() == h.numberOfFreedSymbols(), "number of freed symbols");
}
/* the same steps PairReplacer takes, with arbitrary choices; expansions of every rule are tracked independently */
static void build(int passes, int maxRules, bool full) {
  { std::ostringstream o; o << "grammar passes " << passes << " rules " << maxRules << " full " << full << " state " << vp::s0; vp::begin(o.str()); }
  Grammar g; std::vector<std::string> ref; /* rules as left -> right over "atoms" */ std::vector<int> owner(256); /* who a plain symbol stands for: -1 itself, else rule index */
  for (int i = 0; i < 256; ++i) owner[i] = -1; std::vector<bool> used(256); int alpha = full ? 256 : 2 + vp::rnd(254); for (int i = 0; i < alpha; ++i) used[i] = true; std::map<uint32, int> pairOwner; std::vector<std::vector<int> > rhsOwner; std::vector<std::pair<uint32, bool> > left;
  for (int p = 0; p < passes; ++p) {
    std::vector<byte> cand, fr; for (int i = 0; i < 256; ++i) if (!g.isSpecial(i)) (used[i] ? cand : fr).push_back(i);
    std::random_shuffle(cand.begin(), cand.end(), [](int n) { return vp::rnd(n); }); std::random_shuffle(fr.begin(), fr.end(), [](int n) { return vp::rnd(n); });
    if (cand.size() < 8) break; size_t nr = 1 + vp::rnd(maxRules); size_t nfree = std::min<size_t>(std::min(nr, fr.size()), vp::rnd(3) ? fr.size() : vp::rnd(3)); size_t nfreed = nr - nfree;
    /* special symbols needed */ size_t n = g.numberOfSpecialSymbols(), left0 = g.specialSymbolPairsLeft(), ns = 0; while (left0 < nfreed) { size_t tot = n + 1; left0 += 2 * n; n = tot; ++ns; }
    if (n > 250 || ns + nfreed + 2 > cand.size()) break; std::vector<byte> specials(cand.begin(), cand.begin() + ns), fs(cand.begin() + ns, cand.begin() + ns + nfreed), vars = fs; for (size_t i = 0; i < nfree; ++i) { vars.push_back(fr[i]); used[fr[i]] = true; }
    std::vector<byte> pool; for (int i = 0; i < 256; ++i) if (!g.isSpecial(i) && used[i] && std::find(fr.begin(), fr.end(), i) == fr.end()) pool.push_back(i);
    g.beginUpdatingRules(); std::vector<std::pair<byte, byte> > rh; for (size_t i = 0; i < nr; ++i) { byte a = pool[vp::rnd(pool.size())], b = pool[vp::rnd(pool.size())]; g.addRule(vars[i], a, b); rh.push_back(std::make_pair(a, b)); }
    std::vector<int> before = owner; std::vector<uint16> np; g.expandAlphabet(fs, specials, np); CHECK(np.size() == fs.size(), "one pair per freed symbol"); g.endUpdatingRules(vars);
    for (size_t i = 0; i < fs.size(); ++i) { CHECK(!pairOwner.count(np[i]), "pair used twice"); pairOwner[np[i]] = before[fs[i]] < 0 ? -1 - fs[i] : before[fs[i]]; }
    for (byte s : specials) { uint32 pr = (s << 8) | s; CHECK(!pairOwner.count(pr), "pair used twice"); pairOwner[pr] = before[s] < 0 ? -1 - s : before[s]; CHECK(g.isSpecial(s), "special mark"); }
    for (size_t i = 0; i < nr; ++i) { rhsOwner.push_back(std::vector<int>()); for (byte c : {rh[i].first, rh[i].second}) rhsOwner.back().push_back(before[c] < 0 ? -1 - c : before[c]); owner[vars[i]] = rhsOwner.size() - 1; }
    /* every rule still says the same */
    for (size_t i = 0; i < rhsOwner.size(); ++i) { Grammar::Rule r = g.getRule(i); std::vector<int> got; for (const byte *q = r.begin(); q < r.end(); ++q) if (g.isSpecial(*q)) { CHECK(q + 1 < r.end() && pairOwner.count((q[0] << 8) | q[1]), "unknown pair in rule " << i); got.push_back(pairOwner[(q[0] << 8) | q[1]]); ++q; } else got.push_back(owner[*q] < 0 ? -1 - *q : owner[*q]);
      CHECK(got == rhsOwner[i], "rule " << i << " changed its meaning"); int who = r.isLarge() ? pairOwner[r.variable()] : owner[r.variable()]; CHECK(who == (int)i, "left side of rule " << i << " stands for " << who); CHECK(r.length() >= 2 && r.length() <= 4, "length"); }
    std::vector<std::pair<uint16, byte> > f = freed(g); std::map<uint32, int> m; for (auto &x : f) m[x.first] = x.second; for (auto &x : pairOwner) { bool sq = (x.first >> 8) == (x.first & 255); if (x.second < 0) CHECK(m.count(x.first) && m[x.first] == -1 - x.second, "freed symbol of a pair"); else CHECK(sq || !m.count(x.first), "a pair that is a variable is listed as freed"); }
    roundtrip(g);
  }
}
int main(int argc, char **argv) {
  vp::setup(argc, argv); { vp::begin("empty grammar"); Grammar g; roundtrip(g); }
  { vp::begin("numbering"); Grammar g; for (int i = 0; i < 256; ++i) g.m_specialSymbols.push_back((i * 77 + 5) & 255); std::vector<bool> seen(65536); for (int n = 1; n <= 256; ++n) { for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) if (a == n - 1 || b == n - 1) { uint32 k = g.numberOfSpecialPair(a, b); CHECK(k < (uint32)n * n && !seen[k], "number " << k << " of pair " << a << "," << b); seen[k] = true; CHECK(g.specialPair(k) == ((g.m_specialSymbols[a] << 8) | g.m_specialSymbols[b]), "pair of number " << k); } } }
  for (int p = 1; p <= 6; ++p) for (int r : {1, 2, 3, 4, 5, 7, 8, 9, 16, 40, 100, 200, 254}) { build(p, r, false); build(p, r, true); }
  for (int i = 0; i < 50 || vp::more(); ++i) build(1 + vp::rnd(12), 1 + vp::rndbits(7), vp::rnd(2));
  return vp::done();
}
