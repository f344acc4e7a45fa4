from cbmc import Group
from check import Native
from pvec import VDEF

LEVEL = "proof"
EXPLANATION = ("Writer: for a grammar of arbitrary size each section writer is proved, with loop invariants over vectors of symbolic length, to emit exactly the bytes the format prescribes for that section, in order, and to count them. "
               "Reader: given those bytes, readGrammar is proved to rebuild the same rules, special symbols, freed symbols and right-hand sides (arbitrary watched element of each) and to consume exactly those bytes. "
               "The numbering of special pairs is proved to be a bijection with inverse specialPair.")
TRUSTED = ["packInteger / readPackedInteger as proved inverse in C01", "std::vector through its contract", "sqrt of an integer below 2^16 truncates to the integer square root (IEEE correct rounding)"]
ASSUMPTIONS = ["at most 255 special symbols and fewer than 2^20 rules", "a pair number has the flag 'variable' exactly when some rule has that pair as its left side, the last pair number in use is not a square (the invariant expandAlphabet maintains; exercised natively)"]
NATIVE = Native("c11.cpp", seconds=6, thorough_seconds=60, cxx=("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"),
                bound="random grammars of 1 to 12 passes built through the real interface, up to 120 special symbols; all special pairs below 256")

PF = ("Grammar::m_frequencies", "Grammar::m_isSpecialSymbol", "Grammar::m_isVariable")
UF = ("--arrays-uf-always",)
GR = r"""
static @T{bwtc::Grammar} g; typedef @T{bwtc::Grammar::PrRule} RULE; static RULE *RU; static uint64_t NR, NS, NP, NH; static uint8_t *SY, *RH; static @T{std::pair<bool, byte>} *SP; static uint64_t wn, K; static uint64_t J;
static void init(void) { NR = nondet_u64(); NS = nondet_u64(); NP = nondet_u64(); NH = nondet_u64(); K = nondet_u64(); J = nondet_u64(); ASSUME(J < 8 && K < (1u << 20)); ASSUME(NR >= 1 && NR < (1u << 20) && NS <= 255 && NP < 65536 && NH < (1u << 22)); RU = malloc((NR + 1) * sizeof(RULE)); SY = malloc(257); RH = malloc(NH + 1); SP = malloc((NP + 1) * sizeof(*SP));
  ASSUME(RU != 0 && SY != 0 && RH != 0 && SP != 0); g.m_rules.d = RU; g.m_rules.n = NR; g.m_specialSymbols.d = SY; g.m_specialSymbols.n = NS; g.m_rightHandSides.d = RH; g.m_rightHandSides.n = NH; g.m_specialPairReplacements.d = SP; g.m_specialPairReplacements.n = NP; wn = 0; }
#define LARGE(i) (RU[i].m_largeVariable ? 1 : 0)
#define LEN(i) (RU[i].m_end - RU[i].m_begin)
"""
W = r"""
void harness(void) { init(); %s
  uint32_t n = @{bwtc::Grammar::%s}(&g, (void*)0); REACH("written"); ASSERT(n == (uint32_t)wn, "counted bytes are the bytes written"); %s }
"""


def wloop(q, base, extra, k="gi", havoc="", body="", end="++gi;", more=()):
    return {"bwtc::Grammar::" + q: {0: dict(alias={"it": base + " + gi"}, pre="gi = 0;", inv=["self == &g"] + extra, havoc="gi = nondet_u64(); wn = nondet_u64(); " + havoc, body=body, end=end, frame=["()"])}}


def writers():
    G = []
    st = {"bwtc::OutStream::writeByte": "c_wb"}
    def add(name, q, wb, loops, pre="", post="", setup=""):
        G.append(Group("write_" + name, W % (setup, q, post), pre=GR + "static uint64_t gi;\n" + pre + wb, stubs=st, loops=loops, defines=VDEF, unwind=12, ptr_fields=PF, flags=UF, timeout=200))
    add("specials", "writeSpecialSymbols", 'static void c_wb(void *o, uint8_t b) { if (wn == 0) ASSERT(b == (uint8_t)NS, "number of special symbols"); else ASSERT(wn - 1 < NS && b == SY[wn - 1], "special symbols in order"); ++wn; }',
        wloop("writeSpecialSymbols", "SY", ["gi <= NS && wn == gi + 1"]), post='ASSERT(wn == NS + 1, "all special symbols are written");')
    add("right_sides", "writeRightSides", 'static void c_wb(void *o, uint8_t b) { ASSERT(wn < NH && b == RH[wn], "right-hand sides in order"); ++wn; }',
        wloop("writeRightSides", "RH", ["gi <= NH && wn == gi"]), post='ASSERT(wn == NH, "all right-hand sides are written");')
    # flags: byte k carries rules 8k .. 8k+7, most significant first; watched bit K*8+J
    add("flags", "writeVariableFlags", r'''static _Bool hit; static void c_wb(void *o, uint8_t b) { if (wn == K) { hit = 1; if (8 * K + J < NR) ASSERT(((b >> (7 - J)) & 1) == LARGE(8 * K + J), "flag bit of a rule"); else ASSERT(((b >> (7 - J)) & 1) == 0, "padding bits are zero"); } ++wn; }''',
        wloop("writeVariableFlags", "RU", ["gi <= NR && bitsLeft >= 1 && bitsLeft <= 8 && wn == gi / 8 && bitsLeft == 8 - gi % 8", "divisible == (NR % 8 == 0) && bytes == (NR + 7) / 8", "(buffer & ((1 << bitsLeft) - 1)) == 0", "hit == (wn > K)",
              "!(wn == K && J < gi % 8) || ((buffer >> (7 - J)) & 1) == LARGE(8 * K + J)"], havoc="hit = nondet_bool();"), post='ASSERT(K >= (NR + 7) / 8 || hit, "every flag byte is written");')
    add("variables", "writeVariables", r'''static int part; static void c_wb(void *o, uint8_t b) { ASSERT(gi < NR, "one variable per rule"); uint16_t v = RU[gi].m_variable; if (LARGE(gi) && part == 0) ASSERT(b == (uint8_t)(v >> 8), "first symbol of a pair variable"); else ASSERT(b == (uint8_t)v && part == LARGE(gi), "variable symbol"); ++part; ++wn; }''',
        wloop("writeVariables", "RU", ["gi <= NR && part == 0 && bytes == (uint32_t)wn"], end='ASSERT(part == 1 + LARGE(gi), "the whole variable is written"); part = 0; ++gi;', havoc="part = nondet_i32();"))
    add("lengths", "writeLengthsOfRules", r'''static _Bool hit; static void c_wb(void *o, uint8_t b) { if (wn == K) { hit = 1; if (4 * K + (J & 3) < NR) ASSERT(((b >> (6 - 2 * (J & 3))) & 3) == LEN(4 * K + (J & 3)) - 2, "length code of a rule"); } ++wn; }''',
        wloop("writeLengthsOfRules", "RU", ["gi <= NR && rulesInBuffer == gi % 4 && wn == gi / 4", "hit == (wn > K)", "!(wn == K && (J & 3) < gi % 4) || ((buffer >> (2 * (gi % 4 - 1 - (J & 3)))) & 3) == LEN(4 * K + (J & 3)) - 2"], havoc="hit = nondet_bool();",
              body="ASSUME(LEN(gi) >= 2 && LEN(gi) <= 4);"), post='ASSERT(K >= (NR + 3) / 4 || hit, "every length byte is written"); ASSERT(wn == (NR + 3) / 4, "as many bytes as needed");', setup="if (4 * K + (J & 3) < NR) ASSUME(LEN(4 * K + (J & 3)) >= 2 && LEN(4 * K + (J & 3)) <= 4);")
    return G


# freed symbols: ghost CNT(i) = number of non-square pair numbers below i that stand for an original symbol
CNT = r"""
static uint32_t *CN; static uint64_t cq, cs; /* cs*cs is the next square >= the cursor; cq the cursor */
#define ORIG(i) (!SP[i].first)
static void cinit(void) { CN = malloc((NP + 1) * 4); ASSUME(CN != 0); ASSUME(CN[0] == 0); }
/* definition of CNT at cursor i, with s the root of the next square */
#define DEF(i, s) ASSUME((i) >= NP || CN[(i) + 1] == CN[i] + ((i) != (s) * (s) && ORIG(i)))
"""


def freed():
    G = []
    nl = {"bwtc::Grammar::numberOfFreedSymbols": {0: dict(inv=["self == &g && i <= NP && curr < 300 && sq == curr * curr && i <= sq && (i == 0 ? curr == 0 : (curr - 1) * (curr - 1) < i)", "numOfFreedSymbols == CN[i] && CN[i] <= i"], body="DEF(i, curr);", dec="NP - i")}}
    G.append(Group("count_freed", r"""
void harness(void) { init(); cinit(); uint32_t n = @{bwtc::Grammar::numberOfFreedSymbols}(&g); REACH("counted"); ASSERT(n == CN[NP], "number of freed original symbols"); }""", pre=GR + CNT, loops=nl, defines=VDEF, unwind=3, ptr_fields=PF, flags=UF, timeout=200))
    wl = {"bwtc::Grammar::writeFreedSymbols": {0: dict(pre="cq = 2;", inv=["self == &g && curr >= 2 && sqr >= 2 && sqr < 300 && sq == sqr * sqr && curr <= sq && (sqr - 1) * (sqr - 1) < curr", "freedSymbols <= 255 && curr <= NP && CN[curr] <= CN[NP] && freedSymbols == CN[NP] - CN[curr]", "wn == 1 + CN[curr] && bytes == wn && CN[NP] <= 255", "cq == curr && wr == 0"],
          havoc="cq = nondet_u64(); wn = nondet_u64(); wr = nondet_u64();", frame=["()"], body="DEF(curr, sqr); MONO(curr); MONO(curr + 1);", end='ASSERT(wr == (CN[cq + 1] - CN[cq]), "a freed symbol is written, others are not"); wr = 0; ++cq;', dec="NP + 1 - curr")}}
    G.append(Group("write_freed", r"""
static uint32_t c_nf(void *x) { return CN[NP]; }
void harness(void) { init(); cinit(); ASSUME(CN[NP] <= 255); if (CN[NP] > 0) { ASSUME(NP > 2 && CN[1] == 0 && CN[2] == 0); } MONO(2);
  uint32_t n = @{bwtc::Grammar::writeFreedSymbols}(&g, (void*)0); REACH("written"); ASSERT(n == wn && wn == 1 + CN[NP], "counted bytes are the bytes written, one per freed symbol"); }""",
                   pre=GR + CNT + r"""
static uint64_t wr; static uint32_t c_nf(void *x);
/* CNT never decreases */
#define MONO(i) ASSUME((i) > NP || CN[i] <= CN[NP])
static void c_wb(void *o, uint8_t b) { if (wn == 0) ASSERT(b == CN[NP], "number of freed symbols"); else { ASSERT(cq < NP && b == SP[cq].second && ORIG(cq), "freed symbols in order of their pair number"); ++wr; } ++wn; }""", stubs={"bwtc::OutStream::writeByte": "c_wb", "bwtc::Grammar::numberOfFreedSymbols": "c_nf"}, loops=wl, defines=VDEF, unwind=3, ptr_fields=PF, flags=UF, timeout=200))
    return G


def order():
    names = ["writeNumberOfRules", "writeSpecialSymbols", "writeVariableFlags", "writeVariables", "writeFreedSymbols", "writeLengthsOfRules", "writeRightSides"]
    stubs = {"bwtc::Grammar::" + n: "c_s%d" % i for i, n in enumerate(names) if i}
    pre = GR + "static int ph; static uint32_t tot; static uint64_t P0; static int pb, wb;\n" + "\n".join(
        'static uint32_t c_s%d(void *g, void *o) { ASSERT(ph == %d && wb == pb, "sections in order"); ph = %d; uint32_t n = nondet_u32(); ASSUME(n < (1u << 24)); tot += n; return n; }' % (i, i, i + 1) for i in range(1, 7)) + r"""
static uint64_t c_pack(uint64_t v, int *b) { ASSERT(v == g.m_rules.n && ph == 0, "number of rules first"); ph = 1; pb = nondet_i32(); ASSUME(pb >= 1 && pb <= 8); *b = pb; wb = 0; P0 = nondet_u64(); return P0; }
static void c_wb(void *o, uint8_t b) { ASSERT(ph == 1 && wb < pb && b == (uint8_t)(P0 >> (8 * wb)), "packed bytes in order, low first"); ++wb; ++tot; }
"""
    stubs.update({"utils::packInteger": "c_pack", "bwtc::OutStream::writeByte": "c_wb"})
    return [Group("write_order", r"""
void harness(void) { init(); if (nondet_bool()) g.m_rules.n = 0; uint32_t n = @{bwtc::Grammar::writeGrammar}(&g, (void*)0); REACH("written"); ASSERT(n == tot, "counted bytes are the bytes written"); ASSERT(wb == pb, "rule count written completely"); ASSERT(ph == (g.m_rules.n ? 7 : 1), "all sections, or only the count when there are no rules"); }""",
                  pre=pre, stubs=stubs, defines=VDEF, unwind=10, ptr_fields=PF, timeout=200)]


def pairs():
    return [Group("pair_numbers", r"""
static uint32_t RT; double vp_isqrt(double x) { RT = nondet_u32(); ASSUME(RT < 256 && (double)(RT * RT) <= x && x < (double)((RT + 1) * (RT + 1))); return RT; }
void harness(void) { init(); NS = 256; g.m_specialSymbols.n = 256; uint32_t IN_first = nondet_u8(), IN_second = nondet_u8(); uint32_t n = @{bwtc::Grammar::numberOfSpecialPair}(&g, IN_first, IN_second); REACH("numbered"); uint32_t m = IN_first > IN_second ? IN_first : IN_second;
  ASSERT(n >= m * m && n < (m + 1) * (m + 1), "pairs of the first m special symbols have the numbers below m*m");
  ASSERT(@{bwtc::Grammar::specialPair}(&g, n) == (uint16_t)((SY[IN_first] << 8) | SY[IN_second]), "specialPair inverts the numbering (so the numbering is injective)");
}""", pre="#undef vp_sqrt\n#define vp_sqrt vp_isqrt\ndouble vp_isqrt(double);\n" + GR, defines=VDEF, unwind=3, ptr_fields=PF, timeout=200, flags=("--sat-solver", "cadical") + UF),
            Group("pair_numbers_onto", r"""
static uint32_t RT; double vp_isqrt(double x) { RT = nondet_u32(); ASSUME(RT < 256 && (double)(RT * RT) <= x && x < (double)((RT + 1) * (RT + 1))); return RT; }
void harness(void) { init(); NS = 256; g.m_specialSymbols.n = 256; uint32_t IN_ord = nondet_u16(); 
  /* symbols distinct: SY[i] == i without loss of generality (specialPair only copies them) */
  uint8_t i = nondet_u8(), j = nondet_u8(); uint16_t p = @{bwtc::Grammar::specialPair}(&g, IN_ord); REACH("pair"); ASSUME(A0 == (uint16_t)((i << 8) | j));
  ASSERT(@{bwtc::Grammar::numberOfSpecialPair}(&g, i, j) == IN_ord, "every number below 65536 is the number of the pair specialPair gives"); }""".replace("A0", "p"),
                  pre="#undef vp_sqrt\n#define vp_sqrt vp_isqrt\ndouble vp_isqrt(double);\n" + GR.replace("wn = 0; }", "wn = 0; ident(); }").replace("static void init", "static void ident(void) { static uint8_t ID[256] = {%s}; SY = ID; g.m_specialSymbols.d = ID; }\nstatic void init" % ",".join(map(str, range(256)))), defines=VDEF, unwind=3, ptr_fields=PF, timeout=200, flags=("--sat-solver", "cadical"))]


READ = r"""
static @T{bwtc::Grammar} h; static RULE *HR; static uint8_t *HS, *HH; static @T{std::pair<bool, byte>} *HP; static _Bool hsp[256], hva[256]; static uint64_t hfr[256]; static _Bool *BL;
static uint32_t *NU; static uint8_t *EH, *EL; /* pair number of a large rule and the indices of its two special symbols */
static uint64_t R, X, XR, RX, RL, Wi, Z; static uint8_t Y; static uint64_t YI; static int ph; static uint64_t ri; static int part; static uint64_t maxw;
#define SQ(x, r) ((x) == (r) * (r))
#define MONO(i) ASSUME((i) > NP || CN[i] <= CN[NP])
#define MONOL(i) ASSUME(NP == 0 || (i) > NP - 1 || CN[i] <= CN[NP - 1])
#define XSQ (X == XR * XR)
/* std::vector<bool>: `original` is tracked at the watched number X, elsewhere it holds what is proved for X */
static _Bool *vpb_at(struct vec_Bool *v, size_t i) { ASSERT(i < v->n, "vector index in bounds"); if (v->kind == 2) return BL + i; if (i == X) return &v->w; v->other = i < NP ? ORIG(i) : nondet_bool(); return &v->other; }
static void vec_Bool_ctor_fill(struct vec_Bool *v, size_t n, _Bool x) { v->n = n; v->kind = 1; v->w = x; ASSERT(n == NS * NS, "one entry per special pair"); }
static void vec_Bool_ctor_n(struct vec_Bool *v, size_t n) { v->n = n; v->kind = 2; ASSERT(n == NR, "one flag per rule"); }
#define vec_Bool_at vpb_at
static uint64_t c_rpi(void *in, size_t *b) { ASSERT(ph == 0, "the rule count comes first"); ph = 1; *b = nondet_size(); return NR; }
static _Bool c_bit(void *in) { ASSERT(ph == 3, "flags follow the special symbols"); ASSERT(ri < NR, "one flag per rule"); return LARGE(ri); }
static void c_flush(void *in) { ASSERT(ph == 3 && ri == NR, "padding is skipped after the flags"); ph = 4; ri = 0; }
static uint8_t c_rb(void *in) {
  if (ph == 1) { ph = 2; ri = 0; return (uint8_t)NS; }
  if (ph == 2) { ASSERT(ri < NS, "as many special symbols as announced"); return SY[ri++]; }
  if (ph == 4 && ri == NR) { ph = 6; return (uint8_t)CN[NP]; }
  if (ph == 4) { ASSERT(ri < NR, "one variable per rule"); uint16_t v = RU[ri].m_variable; if (LARGE(ri) && part == 0) { part = 1; return v >> 8; } ASSERT(part == LARGE(ri), "no more symbols than written"); part = 2; return (uint8_t)v; }
  if (ph == 6) { ASSERT(cq < NP && ORIG(cq) && cq != cs * cs, "a freed symbol is read exactly at its pair number"); return SP[cq].second; }
  if (ph == 7) { ASSERT(ri < (NR + 3) / 4, "one length byte per four rules"); uint8_t b = nondet_u8(); for (int j = 0; j < 4; ++j) ASSUME(4 * ri + j >= NR || ((b >> (6 - 2 * j)) & 3) == LEN(4 * ri + j) - 2); ++ri; return b; }
  ASSERT(ph == 8 && ri < NH, "right-hand sides last"); return RH[ri++]; }
static uint32_t c_nsp(void *self, uint32_t f, uint32_t s) { ASSERT(f == EH[ri] && s == EL[ri], "special symbols are numbered in order"); ASSUME(NU[ri] < NP && NU[ri] < NS * NS); ASSUME(XSQ || NU[ri] != X || SP[X].first); ASSUME(ri != RX || XSQ || X >= NP || ORIG(X) || NU[ri] == X); ASSUME(ri != RL || ORIG(NP - 1) || NU[ri] == NP - 1); return NU[ri]; }
#define RMATCH(r) (HR[r].m_variable == RU[r].m_variable && (HR[r].m_largeVariable ? 1 : 0) == LARGE(r))
#define PMATCH(x) ((HP[x].first ? 1 : 0) == (SP[x].first ? 1 : 0) && (SP[x].first || HP[x].second == SP[x].second))
"""
ROOT = "sq == sqr * sqr && sqr <= 256 && curr <= sq && (curr == 0 ? sqr == 0 : (sqr - 1) * (sqr - 1) < curr)"


def reader():
    fix = ["self == &h && rules == NR && specials == NS", "original.n == NS * NS && original.kind == 1"]
    hh = "ri = nondet_u64(); "
    L = {0: dict(inv=["self == &h && rules == NR && specials == NS", "original.n == NS * NS && original.kind == 1", "i <= NS && ph == 2 && ri == i && h.m_specialSymbols.n == i", "(hsp[Y] ? 1 : 0) == (YI < i)", "!(Wi < i) || HS[Wi] == SY[Wi]", "!(Wi < i) || specialEnumeration[SY[Wi]] == Wi", "(original.w ? 1 : 0) == !(XSQ && XR < i)"],
                 body="ASSUME(i == Wi || SY[i] != SY[Wi]); ASSUME((SY[i] == Y) == (i == YI));", havoc=hh + "h.m_specialSymbols.n = nondet_u64(); __CPROVER_havoc_object(HS); __CPROVER_havoc_object(hsp); __CPROVER_havoc_object(specialEnumeration); original.w = nondet_bool(); original.other = nondet_bool();", frame=["()", "m_isSpecialSymbol", "specialEnumeration", "original"], dec="NS - i"),
         1: dict(pre="ph = 3; ri = 0;", inv=fix + ["i <= NR && ri == i && ph == 3 && isLargeVariable.n == NR && isLargeVariable.kind == 2", "!(R < i) || (BL[R] ? 1 : 0) == LARGE(R)"], havoc=hh + "__CPROVER_havoc_object(BL); isLargeVariable.w = nondet_bool(); isLargeVariable.other = nondet_bool();", end="++ri;", frame=["isLargeVariable", "()"], dec="NR - i"),
         2: dict(pre="part = 0;", inv=fix + ["i <= NR && ri == i && ph == 4 && isLargeVariable.n == NR && isLargeVariable.kind == 2 && part == 0 && h.m_rules.n == i", "!(R < i) || RMATCH(R)", "XSQ || X >= NP || !original.w || !(RX < i && !ORIG(X))", "XSQ || X >= NP || original.w || !ORIG(X)", "maxSymbol == 0 || maxSymbol < NP", "NP == 0 || ORIG(NP - 1) || !(RL < i) || maxSymbol == NP - 1"],
                 body="ASSUME((BL[i] ? 1 : 0) == LARGE(i)); /* instance of loop 1 */ if (LARGE(i)) { ASSUME(EH[i] < NS && EL[i] < NS && RU[i].m_variable == ((SY[EH[i]] << 8) | SY[EL[i]])); ASSUME(specialEnumeration[SY[EH[i]]] == EH[i] && specialEnumeration[SY[EL[i]]] == EL[i]); /* instances of loop 0 */ } else ASSUME(RU[i].m_variable < 256);",
                 end='ASSERT(part == 2, "the whole variable is read"); part = 0; ++ri;', havoc=hh + "part = nondet_i32(); h.m_rules.n = nondet_u64(); __CPROVER_havoc_object(HR); __CPROVER_havoc_object(hva); __CPROVER_havoc_object(hfr); original.w = nondet_bool(); original.other = nondet_bool();", frame=["()", "m_frequencies", "m_isVariable", "original"], dec="NR - i"),
         3: dict(pre='ASSERT(ph == 6, "freed symbols follow the variables"); ASSERT(XSQ || X >= NP || (original.w ? 1 : 0) == ORIG(X), "a pair number counts as freed exactly when no rule uses it");', inv=fix + ["curr <= NP && ph == 6", ROOT, "read == CN[curr] && freedSymbols == CN[NP] && h.m_specialPairReplacements.n == curr", "XSQ || X >= NP || (original.w ? 1 : 0) == ORIG(X)", "!(X < curr) || PMATCH(X)", "h.m_specialSymbols.n == NS"],
                 body="cq = curr; cs = sqr; DEF(curr, sqr); MONO(curr + 1); MONO(curr); SQF(curr, sqr); ASSUME(sqr >= NS || HS[sqr] == SY[sqr]); /* instance of loop 0 */", havoc="h.m_specialPairReplacements.n = nondet_u64(); __CPROVER_havoc_object(HP); original.other = nondet_bool();", frame=["()", "original"], dec="NP + 1 - curr"),
         4: dict(pre="MONO(curr); MONOL(curr); DEF(NP - 1, RT);", inv=fix + ["curr <= NP && ph == 6", ROOT, "CN[curr] == CN[NP] && h.m_specialPairReplacements.n == curr", "!(X < curr) || PMATCH(X)", "maxSymbol < NP", "h.m_specialSymbols.n == NS"],
                 body="DEF(curr, sqr); MONO(curr + 1); SQF(curr, sqr); ASSUME(sqr >= NS || HS[sqr] == SY[sqr]);", havoc="h.m_specialPairReplacements.n = nondet_u64(); __CPROVER_havoc_object(HP);", frame=["()"], dec="NP + 1 - curr"),
         5: dict(pre='MONO(curr); MONOL(curr); MONO(NP - 1); DEF(NP - 1, RT); ph = 7; ri = 0; ASSERT(h.m_specialPairReplacements.n == NP, "as many pair numbers in use as on the writing side");', inv=["self == &h && rules == NR && h.m_rules.n == NR && add == (NR % 4 != 0)", "i <= (NR + 3) / 4 && ri == i && ph == 7", "rightSidesLength == (4 * i < NR ? RU[4 * i].m_begin : NH)", "!(R < 4 * i) || (HR[R].m_begin == RU[R].m_begin && HR[R].m_end == RU[R].m_end)", "RMATCH(R)"],
                 body="CONT(4 * i); CONT(4 * i + 1); CONT(4 * i + 2); CONT(4 * i + 3);", havoc=hh + "for (uint64_t q = 0; q < 1; ++q) { } { uint16_t kv = HR[R].m_variable; _Bool kl = HR[R].m_largeVariable; __CPROVER_havoc_object(HR); ASSUME(HR[R].m_variable == kv && HR[R].m_largeVariable == kl); }", frame=["()"]),
         7: dict(pre="ph = 8; ri = 0;", inv=["self == &h && rightSidesLength == NH && i <= NH && ri == i && ph == 8 && h.m_rightHandSides.n == NH", "!(Z < i) || HH[Z] == RH[Z]"], havoc=hh + "__CPROVER_havoc_object(HH); __CPROVER_havoc_object(hfr);", frame=["()", "m_frequencies", "m_rightHandSides"], dec="NH - i")}
    return [Group("read", r"""
void harness(void) { init(); cinit(); ASSUME(NS <= 255 && NP <= NS * NS); HR = malloc(NR * sizeof(RULE)); HS = malloc(256); HP = malloc((NP + 1) * sizeof(*HP)); HH = malloc(NH + 1); BL = malloc(NR); NU = malloc(NR * 4); EH = malloc(NR); EL = malloc(NR);
  ASSUME(HR != 0 && HS != 0 && HP != 0 && HH != 0 && BL != 0 && NU != 0 && EH != 0 && EL != 0); h.m_frequencies = hfr; h.m_isSpecialSymbol = hsp; h.m_isVariable = hva; __CPROVER_havoc_object(hfr);
  h.m_rules.d = HR; h.m_rules.cap = NR; h.m_specialSymbols.d = HS; h.m_specialSymbols.cap = 255; h.m_specialPairReplacements.d = HP; h.m_specialPairReplacements.cap = NP; h.m_rightHandSides.d = HH; h.m_rightHandSides.cap = NH; h.m_rules.n = h.m_specialSymbols.n = h.m_specialPairReplacements.n = h.m_rightHandSides.n = 0;
  R = nondet_u64(); X = nondet_u64(); XR = nondet_u64(); RX = nondet_u64(); RL = nondet_u64(); Wi = nondet_u64(); Z = nondet_u64(); Y = nondet_u8(); YI = nondet_u64(); RT = nondet_u64(); ASSUME(R < NR && X < NS * NS && XR <= 255 && XR * XR <= X && X < (XR + 1) * (XR + 1) && Wi < 255 && Z < NH);
  ASSUME(YI >= NS || SY[YI] == Y); if (YI < NS) ASSUME(SY[YI] == Y); /* YI: where Y is among the special symbols, or beyond */
  ASSUME(CN[NP] <= 255); /* facts of a written grammar */
  if (NP > 0) { ASSUME(RT <= 255 && (RT - 1) * (RT - 1) < NP - 1 && NP - 1 < RT * RT); ASSUME(NP >= 3); /* the last pair number in use is no square */ ASSUME(ORIG(NP - 1) || (RL < NR && LARGE(RL))); }
  if (X < NP && !XSQ && !ORIG(X)) ASSUME(RX < NR && LARGE(RX));
  ASSUME(RU[0].m_begin == 0 && RU[NR - 1].m_end == NH); CONT(R);
  @{bwtc::Grammar::readGrammar}(&h, (void*)0); REACH("read"); ASSERT(ph == 8 && ri == NH, "exactly the written bytes are consumed");
  ASSERT(h.m_rules.n == NR && RMATCH(R), "rules have their left sides"); ASSERT(HR[R].m_begin == RU[R].m_begin && HR[R].m_end == RU[R].m_end, "rules have their right sides"); ASSERT(h.m_rightHandSides.n == NH && HH[Z] == RH[Z], "right-hand sides are equal");
  ASSERT(h.m_specialSymbols.n == NS && (Wi >= NS || HS[Wi] == SY[Wi]), "special symbols are equal"); ASSERT((hsp[Y] ? 1 : 0) == (YI < NS), "exactly the special symbols are marked"); ASSERT(h.m_specialPairReplacements.n == NP && (X >= NP || PMATCH(X)), "freed symbols are equal"); }""",
                  pre=GR + CNT + READ + r"""
static uint64_t RT;
/* a square number r*r stands for special symbol r */
#define SQF(c, r) ASSUME((c) >= NP || (c) != (r) * (r) || (ORIG(c) && SP[c].second == SY[r]))
/* right-hand sides lie one after the other, each of length 2 to 4 */
#define CONT(r) ASSUME((r) >= NR || (LEN(r) >= 2 && LEN(r) <= 4 && RU[r].m_begin < (1u << 24) && ((r) + 1 < NR ? RU[(r) + 1].m_begin == RU[r].m_end : RU[r].m_end == NH)))
""", stubs={"utils::readPackedInteger": "c_rpi", "bwtc::InStream::readByte": "c_rb", "bwtc::InStream::readBit": "c_bit", "bwtc::InStream::flushBuffer": "c_flush", "bwtc::Grammar::numberOfSpecialPair": "c_nsp"},
                  loops={"bwtc::Grammar::readGrammar": L}, defines=VDEF.replace("size_t cap; }", "size_t cap; int kind; T w, other; }"), unwind=6, ptr_fields=PF, flags=UF, timeout=400)]


def expand():
    L = {0: dict(inv=["self == &g && numOfSpecials == g.m_specialSymbols.n && NSP == numOfSpecials && numOfSpecials <= 255 && s <= newSpecials->n && i <= freedSymbols->n", "NPR == g.m_specialPairReplacements.n && NPR <= NSP * NSP && specialPairsLeft == (int)(NSP * NSP - NPR)", "NSP == 0 ? NPR == 0 : NPR >= (NSP - 1) * (NSP - 1) + 1", "nextSpecialPairs->n == i && pend == 0", "g.m_rules.n == NR && g.m_rules.d == RU && g.m_rightHandSides.n == NH && g.m_rightHandSides.d == RH && g.m_specialSymbols.d == SY && freedSymbols->d == FS && newSpecials->d == NW && freedSymbols->n == NF"],
                 havoc="NSP = nondet_u64(); NPR = nondet_u64(); pend = nondet_i32(); g.m_specialSymbols.n = nondet_u64(); g.m_specialPairReplacements.n = nondet_u64(); nextSpecialPairs->n = nondet_u64(); __CPROVER_havoc_object(SY); __CPROVER_havoc_object(isNewSpecial); __CPROVER_havoc_object(specialReplaces); __CPROVER_havoc_object(gsp); __CPROVER_havoc_object(gva);",
                 body="ASSUME(specialPairsLeft != 0 || s < newSpecials->n); ASSUME(NSP < 255 || specialPairsLeft != 0); FSYM = FS[i]; WASV = gva[FSYM]; NSYM = specialPairsLeft == 0 ? NW[s] : 0; _Bool newsp = specialPairsLeft == 0;",
                 end='ASSERT(pend == 0, "every freed symbol gets a pair"); if (newsp) ASSERT(SY[NSP - 1] == NSYM && gsp[NSYM] && g.m_specialSymbols.n == NSP, "a new special symbol is recorded as such"); else ASSERT(gva[FSYM] && isNewSpecial[FSYM] && specialReplaces[FSYM] == LASTP, "the freed symbol becomes available and its pair is remembered");',
                 frame=["()", "m_isSpecialSymbol", "isNewSpecial", "specialReplaces", "m_isVariable"])}
    weak = lambda k: dict(inv=["self == &g && g.m_rules.n == NR && g.m_rules.d == RU && g.m_rightHandSides.n == NH && g.m_rightHandSides.d == RH"] + (["nRightSides.n <= NRC && nRightSides.d == NRD"]) + (["i < NR", "j <= NH && RU[i].m_end <= NH && (RU[i].m_largeVariable || RU[i].m_variable < 256)"] if k == 2 else ["i <= NR"]),
            havoc="__CPROVER_havoc_object(gfr); " + ("__CPROVER_havoc_object(RU); " if k == 1 else "") + "__CPROVER_havoc_object(NRD); nRightSides.n = nondet_u64();", body="ASSUME(nRightSides.n < NRC - 8);" + (" ASSUME(RU[i].m_begin <= RU[i].m_end && RU[i].m_end <= NH && (RU[i].m_largeVariable || RU[i].m_variable < 256));" if k == 1 else ""), frame=["()", "m_frequencies", "m_specialSymbolsAsVariables"])
    return [Group("expand_numbering", r"""
void harness(void) { init(); NF = nondet_u64(); uint64_t nn = nondet_u64(); ASSUME(NF <= 255 && nn <= 255); ASSUME(NP <= NS * NS && (NS == 0 ? NP == 0 : NP >= (NS - 1) * (NS - 1) + 1)); FS = malloc(256); NW = malloc(256); ASSUME(FS != 0 && NW != 0); fv.d = FS; fv.n = NF; nv.d = NW; nv.n = nn; pv.n = 0;
  g.m_specialSymbols.cap = 257; g.m_isSpecialSymbol = gsp; g.m_isVariable = gva; g.m_frequencies = gfr; __CPROVER_havoc_object(gsp); __CPROVER_havoc_object(gva); __CPROVER_havoc_object(gfr); g.m_newRules = nondet_u16(); ASSUME(g.m_newRules <= NR); NSP = NS; NPR = NP;
  @{bwtc::Grammar::expandAlphabet}(&g, &fv, &nv, &pv); REACH("expanded"); ASSERT(pv.n == NF, "one special pair per freed symbol"); ASSERT(NPR <= NSP * NSP && g.m_specialSymbols.n == NSP && g.m_specialPairReplacements.n == NPR, "sizes agree"); }""",
                  pre=GR + r"""
static struct vec_uint8_t fv, nv; static struct vec_uint16_t pv; static uint64_t NF, NSP, NPR; static uint8_t *FS, *NW, FSYM, NSYM; static _Bool WASV, gsp[256], gva[256]; static uint64_t gfr[256]; static int pend; static uint16_t LASTP;
/* numbers: squares stand for the special symbol itself, the others take the freed symbols in order */
static void push_sp(struct vec_pair_Bool_uint8_t *v, @T{std::pair<bool, byte>} x) { ASSERT(v == &g.m_specialPairReplacements, "pair list"); if (NPR == NSP * NSP) { ASSERT(!x.first && x.second == NSYM, "a square number stands for the new special symbol"); ++NSP; } else { ASSERT((x.first ? 1 : 0) == (WASV ? 1 : 0) && x.second == FSYM, "a freed symbol is recorded, as variable if it was one"); ++pend; } ++NPR; v->n++; }
static void push_u16(struct vec_uint16_t *v, uint16_t p) { uint64_t num = pend ? NPR - 1 : NPR; uint64_t off = num - (NSP - 1) * (NSP - 1) - 1; ASSERT(off < 2 * (NSP - 1), "number belongs to the newest special symbol");
  uint16_t want = off < NSP - 1 ? ((SY[off] << 8) | SY[NSP - 1]) : ((SY[NSP - 1] << 8) | SY[off - (NSP - 1)]); ASSERT(p == want, "the pair of a freed symbol is the pair with its number"); LASTP = p; --pend; v->n++; }
#define vec_pair_Bool_uint8_t_push_back push_sp
#define vec_uint16_t_push_back push_u16
#define vp_swapped(a, b)
""", loops={"bwtc::Grammar::expandAlphabet": {0: L[0], 1: weak(1), 2: weak(2)}},
                  defines=VDEF.replace("vec_##N##_ctor(struct vec_##N *v) { v->n = 0; }", "vec_##N##_ctor(struct vec_##N *v) { v->n = 0; v->cap = NRC; v->d = NRD; }").replace("#define VP_VEC_STRUCT", "#define NRC (1u << 26)\nextern uint8_t NRD[NRC];\n#define VP_VEC_STRUCT", 1).replace("v->d = NRD", "v->d = (T*)NRD"), unwind=6, ptr_fields=PF, flags=UF, timeout=400)]


def empty():
    return [Group("read_empty", r"""
static int cnt; static uint64_t c_rpi(void *in, size_t *b) { ++cnt; *b = 1; return 0; } static uint8_t c_rb(void *in) { ASSERT(0, "nothing follows an empty grammar"); return 0; }
void harness(void) { init(); g.m_rules.n = g.m_specialSymbols.n = g.m_specialPairReplacements.n = g.m_rightHandSides.n = 0; @{bwtc::Grammar::readGrammar}(&g, (void*)0); REACH("read"); ASSERT(cnt == 1 && g.m_rules.n == 0 && g.m_specialSymbols.n == 0 && g.m_specialPairReplacements.n == 0, "an empty grammar reads as empty and only its count is consumed"); }""",
                  pre=GR + "static uint64_t c_rpi(void *in, size_t *b); static uint8_t c_rb(void *in); static void vec_Bool_ctor_fill(struct vec_Bool *v, size_t n, _Bool x) {} static void vec_Bool_ctor_n(struct vec_Bool *v, size_t n) {} static uint32_t c_n(void *s, uint32_t a, uint32_t b) { return nondet_u32(); } static _Bool c_bit(void *i) { return 0; } static void c_f(void *i) {}",
                  stubs={"utils::readPackedInteger": "c_rpi", "bwtc::InStream::readByte": "c_rb", "bwtc::InStream::readBit": "c_bit", "bwtc::InStream::flushBuffer": "c_f", "bwtc::Grammar::numberOfSpecialPair": "c_n"}, defines=VDEF, unwind=3, ptr_fields=PF, timeout=200)]


def groups(tier):
    return pairs() + order() + writers() + freed() + reader() + expand() + empty()
