from cbmc import Group
from check import Native

LEVEL = "proof"
EXTRA_TU = """
namespace bwtc { inline void vpInst(WaveletTree<std::vector<bool> >& t, const byte *s, size_t n) { t.pushMessage(s, n); } }
"""
EXPLANATION = ("Each run-splitting function is checked for a block of arbitrary content and arbitrary symbolic length: a ghost scanner walks the block position by position and defines the maximal runs; "
               "loop invariants relate the code's two pointers and its counters to the scanner, for an arbitrary watched symbol, run length, run number and position. "
               "The obligations say the stored / counted / pushed runs are exactly the maximal runs, so they expand back to the block.")
TRUSTED = ["std::map through its contract (one counter per key, initially zero for a new key)", "WaveletTree::pushRun is a callee contract here (its body is C16)"]
ASSUMPTIONS = ["blocks have 1 to 2^31-1 bytes (the transform's limit)", "the output arrays of the storing variant have room for one entry per input byte, as the caller allocates them"]
NATIVE = Native("c07.cpp", seconds=5, thorough_seconds=60, cxx=("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"),
                bound="all blocks up to 7 bytes over 3 symbols, random blocks up to 5000 bytes with run lengths of every magnitude")

# the ghost scanner: position gp, current run started at gs; run r is finished when the symbol changes or the block ends
SCAN = r"""
static uint8_t *SRC; static uint64_t LEN, gp, gs, gn; /* scanned, start of the current run, finished runs */
static uint8_t S; static uint64_t cS; /* watched symbol, its finished runs */
static uint32_t L; static uint64_t cL; /* watched run length, its finished runs */
static uint64_t K; static uint8_t kSym; static uint64_t kLen; static _Bool kHas; /* watched run number */
static uint8_t gsym; /* symbol of the current run */
static void finish(void) { if (gsym == S) ++cS; if (gp - gs == L) ++cL; if (gn == K) { kHas = 1; kSym = gsym; kLen = gp - gs; } ++gn; }
static void step(void) { if (gp > LEN) return; if (gp == LEN) { finish(); ++gp; return; } uint8_t c = SRC[gp]; if (gp == 0) { gs = 0; gsym = c; } else if (c != gsym) { finish(); gs = gp; gsym = c; } ++gp; }
static void init(void) { LEN = nondet_u64(); ASSUME(LEN >= 1 && LEN <= 0x7fffffff); SRC = malloc(LEN + 1); ASSUME(SRC != 0); gp = gs = gn = cS = cL = 0; kHas = 0; S = nondet_u8(); L = nondet_u32(); K = nondet_u64(); }
#define HAVOC_SCAN gsym = nondet_u8(); gp = nondet_u64(); gs = nondet_u64(); gn = nondet_u64(); cS = nondet_u64(); cL = nondet_u64(); kHas = nondet_bool(); kSym = nondet_u8(); kLen = nondet_u64();
static uint64_t *RF, f0, m0, *cLp; static uint8_t *RS; static uint32_t *RL;
struct map_uint32_t_uint32_t { uint32_t watched, other; };
static uint32_t *map_uint32_t_uint32_t_at(struct map_uint32_t_uint32_t *m, uint32_t k) { if (k == L) return &m->watched; m->other = nondet_u32(); return &m->other; }
static struct map_uint32_t_uint32_t MAP;
static uint64_t PR; /* pushMessage: bytes covered so far */ static uint64_t WP, CP;
static void c_pushRun(void *t, uint8_t sym, size_t n) { ASSERT(n >= 1 && n <= LEN - PR, "a run is non-empty and inside the block"); ASSERT(SRC[PR] == sym, "a run has the symbol at its position");
  if (WP >= PR && WP < PR + n) ASSERT(SRC[WP] == sym, "every byte of a run has its symbol"); if (PR) ASSERT(SRC[PR - 1] != sym, "consecutive runs have different symbols"); PR += n; }
"""
BASE = ["gp >= 1 && gp <= LEN", "gs < gp && gs <= LEN - 1", "SRC[gs] == gsym", "length == LEN && src == SRC", "gn <= gs && cS <= gn && cL <= gn", "kHas == (gn > K)", "!kHas || (kLen >= 1 && kLen <= LEN)"]


def loops(extra_o, extra_i, havoc, al={}):
    hv = "HAVOC_SCAN " + havoc
    outer = BASE + ["gp == gs + 1"] + extra_o
    # before the loop: the scanner is on the first byte
    inner = BASE + ["length == LEN && src == SRC"] + extra_o + extra_i
    fr = ["runFreqs", "runlen", "ptr", "runs", "()"]
    return {0: dict(alias=dict({"prev": "SRC + gs", "curr": "SRC + gp"}, **al), pre="if (gp == 0) step();", inv=outer + ["length == LEN && src == SRC"], havoc=hv, frame=fr, end="step();"),
            1: dict(alias=dict({"prev": "SRC + gs", "curr": "SRC + gp"}, **al), inv=inner, havoc="HAVOC_SCAN", frame=fr, end="step();", dec="LEN + 1 - gp")}


def groups(tier):
    G = []
    H = r"""
void harness(void) {
  init(); static uint64_t rf[256]; RF = rf; __CPROVER_havoc_object(rf); ASSUME(rf[S] < (1ull << 60)); f0 = rf[S]; MAP.watched = nondet_u32(); ASSUME(MAP.watched < (1u << 30)); m0 = MAP.watched;
  %s
  if (gp == LEN) step();
  REACH("scanned"); ASSERT(gp == LEN + 1, "the whole block is consumed");
  %s
}"""
    fr = "runFreqs[S] == f0 + cS"
    hrf = "__CPROVER_havoc_object(runFreqs);"
    G.append(Group("count_runs", H % ("@{utils::calculateRunFrequencies}(rf, SRC, LEN);", 'ASSERT(rf[S] == f0 + cS, "frequency of a symbol is its number of maximal runs");'),
                   pre=SCAN, loops={"utils::calculateRunFrequencies": loops([fr], [], hrf)}, unwind=4, timeout=400, flags=("--arrays-uf-always",)))
    mp = "MAP.watched == (uint32_t)(m0 + cL)"
    G.append(Group("count_runs_and_lengths", H % ("uint64_t tot = @{utils::calculateRunsAndCharacters}(rf, SRC, LEN, &MAP);", r'''ASSERT(rf[S] == f0 + cS, "frequency of a symbol is its number of maximal runs");
  ASSERT(MAP.watched == m0 + cL, "frequency of a length is its number of maximal runs"); ASSERT(tot == gn, "total is the number of maximal runs");'''),
                   pre=SCAN, loops={"utils::calculateRunsAndCharacters": loops([fr, mp, "totalRuns == gn"], [], hrf + "MAP.watched = nondet_u32();")}, unwind=4, timeout=400, flags=("--arrays-uf-always",)))
    st = "RS == runseq && runlen == RL && runs_cnt == gn && gn <= LEN"
    kk = "!kHas || (RS[K] == kSym && RL[K] == kLen)"
    G.append(Group("store_runs", H % (r'''RS = malloc(LEN); RL = malloc(LEN * 4); ASSUME(RS != 0 && RL != 0); ASSUME(K < LEN);
  uint64_t tot = @{utils::calculateRunFrequenciesAndStoreRuns}(rf, RS, RL, SRC, LEN);''', r'''ASSERT(rf[S] == f0 + cS, "frequency of a symbol is its number of maximal runs");
  ASSERT(tot == gn, "as many stored runs as maximal runs"); if (K < tot) { ASSERT(kHas && RS[K] == kSym, "run has its symbol"); ASSERT(RL[K] == kLen, "run has its length"); }'''),
                   pre=SCAN, loops={"utils::calculateRunFrequenciesAndStoreRuns": loops([fr, st, kk, "K < LEN"], [], hrf + "__CPROVER_havoc_object(RS); __CPROVER_havoc_object(RL);", {"ptr": "RS + gn"})}, unwind=4, timeout=400, flags=("--arrays-uf-always",)))
    push = {"bwtc::WaveletTree<std::vector<bool>>::pushMessage": {
        0: dict(alias={"prev": "SRC + PR", "curr": "SRC + PR + 1"}, inv=["src == SRC && length == LEN", "PR < LEN", "WP < LEN", "PR == 0 || SRC[PR] != SRC[PR-1]"], havoc="PR = nondet_u64();", frame=["()"],),
        1: dict(alias={"prev": "SRC + PR", "curr": "SRC + CP"}, pre="CP = PR + 1;", end="++CP;", inv=["src == SRC && length == LEN", "PR < LEN", "CP > PR && CP <= LEN", "!(WP >= PR && WP < CP) || SRC[WP] == SRC[PR]", "SRC[CP - 1] == SRC[PR]"], havoc="CP = nondet_u64();", dec="LEN + 1 - CP")}}
    G.append(Group("push_runs", r"""
void harness(void) { init(); PR = 0; WP = nondet_u64(); ASSUME(WP < LEN);
  @{bwtc::WaveletTree<std::vector<bool>>::pushMessage}((void*)0, SRC, LEN); REACH("pushed"); ASSERT(PR == LEN, "the runs cover the block");
}""", pre=SCAN, stubs={"bwtc::WaveletTree<std::vector<bool>>::pushRun": "c_pushRun"}, loops=push, unwind=4, timeout=400, flags=("--arrays-uf-always",)))
    return G
