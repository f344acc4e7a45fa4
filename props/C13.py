from cbmc import Group
from check import Native
from pvec import VDEF
LEVEL = "proof"
EXPLANATION = ("Forward wrappers: for every block length the block is reversed, closed by a zero byte, sorted, the end mark's row filled and the byte after the block put back. "
               "Inverse wrapper: the kept byte is put back in the last row. Inverse walk: for every transform length, number of starting points, block size parity and output position, the byte written there is the one the row table gives for its step of the walk that starts at its block's starting row; every row visited is the successor of the previous one. "
               "Manager: limits on starting points, choice of sorter, order of calls.")
TRUSTED = ["Burrows-Wheeler theorem: following the last-to-first mapping from the starting rows spells the block", "std::reverse, std::copy, std::vector through their contracts",
           "block starts b*floor(N/S) are in order and the last block fits (arithmetic of products, stated as facts about an uninterpreted product)"]
ASSUMPTIONS = ["contract of the suffix sorters (divbwt, divbwtf, saisxx_bwt): rows sorted, starting points are the rows of the evenly spaced positions; compared with plain sorting natively, not proved",
               "contract of MtlSaInverseBWTransform::computeData: the table holds, for every row, the row two steps on and the two bytes between; exercised natively, not proved",
               "block size 1 to 2^31-2 bytes"]
NATIVE = Native("c13.cpp", seconds=12, thorough_seconds=200, cxx=("-O2", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=alignment"), bound="blocks of 1 to 400000 bytes (quick), 17 MB (thorough); both sorters with and without counts, all inverse transforms, 1 to 256 starting points; transform compared with plain sorting up to 3000 bytes")
UF = ("--arrays-uf-always",)
CAD = ("--sat-solver", "cadical")

# the block as the sorter sees it / leaves it: uninterpreted, looked at through one watched position
WRAP = r"""
static @T{bwtc::BWTransform} bt; static @T{bwtc::BWTBlock} blk; static uint8_t *MEM; static uint32_t N; static uint32_t W; static uint8_t xW, uW, uLast, mark; static uint32_t LF[256]; static unsigned calls, rev; static uint32_t FQ[256];
static void vp_reverse_uint8_t(uint8_t *b, uint8_t *e);
static void sorter(uint8_t *p, uint32_t n);
static void c_tr(@T{bwtc::BWTransform} *s, uint8_t *p, uint32_t n, struct vec_uint32_t *lf);
static void c_trf(@T{bwtc::BWTransform} *s, uint8_t *p, uint32_t n, struct vec_uint32_t *lf, uint32_t *f);
static uint32_t *vp_lf(const struct vec_uint32_t *v, size_t i) { ASSERT(v == &blk.m_LFpowers && i < v->n, "starting points of the block"); return &LF[i]; }
"""
WDEF = r"""#include <stdint.h>
#include <stddef.h>
#define VP_VEC_STRUCT(N, T) struct vec_##N { size_t n; }; static T *vp_lf(const struct vec_##N *v, size_t i); \
static inline size_t vec_##N##_size(const struct vec_##N *v) { return v->n; } static inline T *vec_##N##_at(const struct vec_##N *v, size_t i) { return vp_lf(v, i); }
"""
WB = r"""
static void vp_reverse_uint8_t(uint8_t *b, uint8_t *e) { ASSERT(b == MEM && e == MEM + N && calls == 0 && !rev, "the block is reversed once, before sorting"); rev = 1; uint8_t z = MEM[N]; __CPROVER_havoc_object(MEM); ASSUME(MEM[W] == xW && MEM[N] == z); }
/* contract of the suffix sorters: the transform of p[0, n) replaces it, the end mark's row is starting point 0; the byte in that row is arbitrary */
static void sorter(uint8_t *p, uint32_t n) { ASSERT(rev && calls == 0, "sorted once, reversed"); calls = 1; ASSERT(p == MEM && n == N + 1, "the block and one byte"); ASSERT(MEM[W] == xW, "the reversed block is sorted"); ASSERT(MEM[N] == 0, "the end mark is zero");
  __CPROVER_havoc_object(MEM); LF[0] = nondet_u32(); ASSUME(LF[0] <= N); ASSUME(MEM[W] == uW && MEM[N] == uLast); }
static void c_tr(@T{bwtc::BWTransform} *s, uint8_t *p, uint32_t n, struct vec_uint32_t *lf) { ASSERT(s == &bt && lf == &blk.m_LFpowers, "starting points of the block"); sorter(p, n); }
static void c_trf(@T{bwtc::BWTransform} *s, uint8_t *p, uint32_t n, struct vec_uint32_t *lf, uint32_t *f) { ASSERT(s == &bt && lf == &blk.m_LFpowers && f == FQ, "starting points and counts of the caller"); sorter(p, n); }
void harness(void) { N = nondet_u32(); ASSUME(N >= 1 && N < 0x7fffffffu); MEM = malloc((uint64_t)N + 1); mark = MEM[N]; blk.m_begin = MEM; blk.m_length = N; blk.m_isTransformed = 0; blk.m_LFpowers.n = 1 + nondet_u8(); W = nondet_u32(); ASSUME(W < N);
  %s REACH("transformed"); ASSERT(calls == 1 && rev, "sorted"); ASSERT(blk.m_isTransformed && blk.m_begin == MEM && blk.m_length == N, "same block, marked as transformed"); ASSERT(MEM[N] == mark, "the byte after the block is put back");
  if (LF[0] == W) ASSERT(MEM[W] == uLast, "the last byte of the transform takes the place of the end mark"); else ASSERT(MEM[W] == uW, "the transform is left in the block"); }
"""


def groups(tier):
    G = []
    st = {"bwtc::BWTransform::doTransform|std::vector<uint32> &) const": "c_tr", "bwtc::BWTransform::doTransform|std::vector<uint32> &, uint32 *) const": "c_trf"}
    for nm, call in (("forward", "@{bwtc::BWTransform::doTransform|void (BWTBlock &)}(&bt, &blk);"), ("forward_counts", "@{bwtc::BWTransform::doTransform|void (BWTBlock &, uint32 *)}(&bt, &blk, FQ);")):
        G.append(Group(nm, WB % call, pre=WRAP, defines=WDEF, stubs=st, unwind=3, flags=UF))


    MST = {"bwtc::computeData": "c_data"}
    BASE = "result_ptr == MEM && bwt == MEM && data_ptr == data && data == DATA && bwt_size == N && starting_positions == S && block_size == BS && to_restore == N - 1"
    def both(k, ex=""):
        return [dict(p="{0} >= S || (positions[{0}] == POS({0}, %s) && dest_ptr[{0}] == (uint16_t*)(MEM + (int64_t)(MB({0}) + 2 * (%s)) - 1))" % (k, k), sk=("SKB",), at=(("block_id",), ("B",), ("(S - 1)",)))]
    USE = "row(positions[block_id]); ASSUME(POS(block_id, %s + 1) == NX(POS(block_id, %s))); dest_ptr[block_id] = (uint16_t*)(MEM + (int64_t)(MB(block_id) + 2 * (%s)) - 1); fits(block_id); before(block_id, B); before(B, block_id); ASSERT((uint64_t)MB(block_id) + 2 * (uint64_t)(%s) < N, \"the pair lies in the block\");"
    HV = "__CPROVER_havoc_object(MEM); __CPROVER_havoc_object(positions); __CPROVER_havoc_object(dest_ptr);"
    FR = ["dest_ptr", "result_ptr", "positions"]
    MDEF = r"""#include <stdint.h>
#include <stddef.h>
static uint32_t LF[256];
#define VP_VEC_STRUCT(N, T) struct vec_##N { size_t n; }; \
static inline size_t vec_##N##_size(const struct vec_##N *v) { return v->n; } static inline T *vec_##N##_begin(const struct vec_##N *v) { return LF; } static inline T *vec_##N##_end(const struct vec_##N *v) { return LF + v->n; } \
static inline T *vec_##N##_at(const struct vec_##N *v, size_t i) { __CPROVER_assert(i < v->n, "vector index in bounds"); return LF + i; }
"""
    MPRE = r"""
static uint8_t *MEM; static uint32_t *DATA, N, LFN, S, BS, B, K, H, SKB, I, g; static uint8_t WANT;
uint32_t __CPROVER_uninterpreted_pos(uint32_t, uint32_t); uint32_t __CPROVER_uninterpreted_nx(uint32_t); uint16_t __CPROVER_uninterpreted_pr(uint32_t); uint32_t __CPROVER_uninterpreted_mb(uint32_t);
#define POS(b, k) __CPROVER_uninterpreted_pos(b, k)
#define NX(p) __CPROVER_uninterpreted_nx(p)
#define PR(p) __CPROVER_uninterpreted_pr(p)
#define MB(b) __CPROVER_uninterpreted_mb(b) /* b * BS */
/* contract of computeData at row p (group mtl_data) */
static void row(uint32_t p) { ASSUME(p < N && NX(p) < N); uint32_t q = 3 * (p / 2); ASSUME(DATA[q + 2 * (p & 1)] == NX(p)); ASSUME((uint16_t)(DATA[q + 1] >> (16 * (p & 1))) == PR(p)); }
/* block starts are in order, the last block fits (group mtl_lemma) */
static void before(uint32_t b, uint32_t c) { if (b < c && c <= 256) ASSUME(MB(c) >= BS && MB(b) <= MB(c) - BS); }
static void fits(uint32_t b) { if (b < S) ASSUME(BS <= N && MB(b) <= N - BS); }
static void c_data(uint8_t *p, uint64_t n, uint32_t *d, uint32_t e); static void vp_copy_uint32_t(uint32_t *b, uint32_t *e, uint32_t *d); static void choose(void);
"""
    MH = r"""
static void c_data(uint8_t *p, uint64_t n, uint32_t *d, uint32_t e) { ASSERT(p == MEM && n == N && e == LF[0], "table of this transform"); DATA = d; }
static void vp_copy_uint32_t(uint32_t *b, uint32_t *e, uint32_t *d) { ASSERT(b == LF && e == LF + LFN, "all starting points"); ASSUME(d[SKB < LFN ? SKB : 0] == POS(SKB < LFN ? SKB : 0, 0)); }
%s
void harness(void) { struct vec_uint32_t lf; N = nondet_u32(); ASSUME(N >= 2 && N <= 0x7fffffffu); LFN = nondet_u32(); ASSUME(LFN >= 1 && LFN <= 256); lf.n = LFN; MEM = malloc(N); SKB = nondet_u32(); ASSUME(SKB < 256); LF[0] = POS(0, 0);
  @{bwtc::MtlSaInverseBWTransform::doTransform}((void*)0, MEM, N, &lf); %s ASSERT(MEM[I] == WANT, "every byte comes from its own pair on the walk from its block's starting row"); }
"""
    WALK = {"bwtc::MtlSaInverseBWTransform::doTransform": {
        0: dict(inv=[BASE, "i <= S"], pre="ABSTRACT(starting_positions) ABSTRACT(block_size) S = starting_positions; BS = block_size; choose();", all=[dict(p="{0} >= i || dest_ptr[{0}] == (uint16_t*)(MEM + (int64_t)MB({0}) - 1)", sk=("SKB",)), dict(p="{0} >= S || positions[{0}] == POS({0}, 0)", sk=("SKB",))], havoc="__CPROVER_havoc_object(dest_ptr);", body="ASSUME(MB(i) == i * block_size);", dec="S - i", frame=FR),
        1: dict(inv=[BASE, "block_id <= S", "!(K == 0 && B < block_id) || MEM[I] == WANT"], all=both("({0} < block_id ? 1 : 0)"), havoc=HV, body=USE % (("0",) * 4), dec="S - block_id", frame=FR),
        2: dict(inv=[BASE, "filled >= 1 && filled <= BS / 2", "!(K < filled) || MEM[I] == WANT"], all=[dict(both("filled")[0], at=(("B",), ("(S - 1)",)))], havoc=HV, dec="BS - filled", frame=FR),
        3: dict(inv=[BASE, "filled >= 1 && filled < BS / 2 && block_id <= S", "!(K < filled || (K == filled && B < block_id)) || MEM[I] == WANT"], all=both("filled + ({0} < block_id ? 1 : 0)"), havoc=HV, body=USE % (("filled",) * 4), dec="S - block_id", frame=FR),
        4: dict(inv=[BASE, "block_id < S", "!(K < BS / 2 || (B < block_id)) || MEM[I] == WANT"], all=both("BS / 2"), havoc="__CPROVER_havoc_object(MEM);", body=(USE % (("BS / 2",) * 4)) + "ASSUME(MB(block_id + 1) == MB(block_id) + BS && MB(block_id + 1) == (block_id + ((uint32_t)1)) * block_size); before(block_id + 1, B);", dec="S - block_id", frame=FR),
        5: dict(inv=[BASE, "(uint64_t)index + 1 == (uint64_t)MB(S - 1) + 2 * (uint64_t)(BS / 2) + 2 * (uint64_t)g && index <= to_restore", "!(B + 1 < S || K < BS / 2 + g) || MEM[I] == WANT", "positions[S - 1] == POS(S - 1, BS / 2 + g) && dest_ptr[S - 1] == (uint16_t*)(MEM + (int64_t)(MB(S - 1) + 2 * (BS / 2 + g)) - 1)"], pre="g = 0; ASSUME(MB(S - 1) == (starting_positions - ((uint32_t)1)) * block_size); fits(S - 1);", havoc=HV + "g = nondet_u32();", body=(USE % (("BS / 2 + g",) * 4)).replace("block_id", "(S - 1)"), end="++g;", post="row(positions[S - 1]); before(B, S - 1);", dec="to_restore - index", frame=FR)}}
    for nm, part in (("mtl_walk", ""),):
        G.append(Group(nm, MH % (r"""
static void choose(void) { B = nondet_u32(); K = nondet_u32(); H = nondet_u32(); /* group mtl_setup */ ASSUME(S >= 1 && S <= LFN && BS >= 2 && BS <= N); ASSUME(MB(0) == 0); fits(S - 1); fits(B); before(B, S - 1); before(0, B); before(0, S - 1); fits(SKB);
  ASSUME(H < 2 && B < S && K < (1u << 31)); int64_t i = (int64_t)MB(B) - 1 + 2 * (int64_t)K + H; ASSUME(i >= 0 && i < (int64_t)N - 1 && (B + 1 == S || 2 * K + H < BS)); I = i; WANT = (PR(POS(B, K)) >> (8 * H)) & 255; }""", 'REACH("restored");'), pre=MPRE + "#define ABSTRACT(x) x = nondet_u32(); /* any values that group mtl_setup allows */\n", defines=MDEF, stubs=MST, loops=WALK, unwind=3, flags=UF, split=4, checks=False))
    G.append(Group("mtl_setup", MH % (r"""
static void choose(void) { REACH("set up"); ASSERT(S == LFN && BS > 1 ? BS == N / LFN : S == 1 && BS == N && N / LFN <= 1, "one block per starting point, of the size the transform used"); ASSUME(0); }""", ""), pre=MPRE + "#define ABSTRACT(x)\n", defines=MDEF, stubs=MST, loops=WALK, unwind=3, flags=UF + ("--z3",), checks=False))
    IH = r"""
static @T{bwtc::BWTBlock} blk; static uint8_t *MEM; static uint32_t N, W, LF[256]; static uint8_t t0, tW; static unsigned calls;
static void c_inv(@T{bwtc::InverseBWTransform} *s, uint8_t *p, uint32_t n, struct vec_uint32_t *lf);
static uint32_t *vp_lf(const struct vec_uint32_t *v, size_t i) { ASSERT(v == &blk.m_LFpowers && i < v->n, "starting points of the block"); return &LF[i]; }
static void c_inv(@T{bwtc::InverseBWTransform} *s, uint8_t *p, uint32_t n, struct vec_uint32_t *lf) { ++calls; ASSERT(p == MEM && n == N + 1 && lf == &blk.m_LFpowers, "the whole transform and its starting points");
  ASSERT(LF[0] == N || p[N] == t0, "the byte kept in the end mark's row goes to the last row"); ASSERT(p[W] == tW, "the rest of the transform unchanged"); }
void harness(void) { N = nondet_u32(); ASSUME(N >= 1 && N < 0x7fffffffu); MEM = malloc((uint64_t)N + 1); blk.m_begin = MEM; blk.m_length = N; blk.m_LFpowers.n = 1 + nondet_u8(); LF[0] = nondet_u32(); ASSUME(LF[0] <= N); W = nondet_u32(); ASSUME(W < N); t0 = MEM[LF[0]]; tW = MEM[W];
  @{bwtc::InverseBWTransform::doTransform|void (BWTBlock &)}(0, &blk); REACH("handed over"); ASSERT(calls == 1, "inverted once"); }
"""
    G.append(Group("inverse_wrap", IH, pre="", defines=WDEF, stubs={"bwtc::InverseBWTransform::doTransform|std::vector<uint32> &": "c_inv"}, unwind=3, flags=UF))
    MANDEF = r"""#include <stdint.h>
#include <stddef.h>
static void *PUSHED, *TRP; static unsigned npush;
#define VP_VEC_STRUCT(N, T) struct vec_##N { T *d; size_t n; }; static inline T *vec_##N##_at(const struct vec_##N *v, size_t i) { __CPROVER_assert(i < v->n, "vector index in bounds"); return v->d + i; } \
static inline void vec_##N##_push_back(struct vec_##N *v, T x) { PUSHED = (void*)(uintptr_t)x; ++npush; } static inline size_t vec_##N##_size(const struct vec_##N *v) { return v->n; }
"""
    MAN = r"""
static @T{bwtc::BWTManager} m; static @T{bwtc::BWTBlock} blk; static unsigned prep, calls; static uint32_t FQ[256]; static @T{bwtc::BWTransform} TR, *TP = &TR;
static void c_prep(@T{bwtc::BWTBlock} *b, uint32_t sp) { ASSERT(b == &blk && sp == m.m_startingPoints && !calls, "room for the chosen number of starting points is made first"); ++prep; }
static void c_t(@T{bwtc::BWTransform} *s, @T{bwtc::BWTBlock} *b) { ASSERT(s == &TR && b == &blk && prep == 1, "the chosen sorter transforms the block"); ++calls; }
static void c_tf(@T{bwtc::BWTransform} *s, @T{bwtc::BWTBlock} *b, uint32_t *f) { ASSERT(s == &TR && b == &blk && prep == 1 && f == FQ, "the chosen sorter transforms and counts the block"); calls += 2; }
"""
    MS = {"bwtc::BWTBlock::prepareLFpowers": "c_prep", "bwtc::BWTransform::doTransform|void (BWTBlock &)": "c_t", "bwtc::BWTransform::doTransform|void (BWTBlock &, uint32 *)": "c_tf"}
    G.append(Group("manager", r"""
void harness(void) { m.m_startingPoints = 1 + nondet_u8(); m.m_transformers.d = &TP; m.m_transformers.n = 1; blk.m_isTransformed = 0; uint32_t sp = nondet_u32(); _Bool f = nondet_bool();
  if (f) @{bwtc::BWTManager::doTransform|void (BWTBlock &, uint32 *)}(&m, &blk, FQ); else @{bwtc::BWTManager::doTransform|void (BWTBlock &)}(&m, &blk); REACH("transformed"); ASSERT(calls == 1 + f && prep == 1, "transformed once");
  @{bwtc::BWTManager::setStartingPoints}(&m, sp); uint32_t got = @{bwtc::BWTManager::getStartingPoints}(&m); ASSERT(got == (sp < 1 ? 1 : sp > 256 ? 256 : sp) && m.m_startingPoints == got, "the number of starting points is kept, limited to 1..256");
  char c = nondet_u8(); ASSERT(@{bwtc::BWTManager::isValidChoice}(c) == (c == 'd' || c == 's' || c == 'a'), "the three choices"); }
""", pre=MAN, defines=MANDEF, stubs=MS, unwind=3, flags=UF))
    G.append(Group("manager_init", r"""
void harness(void) { char c = nondet_u8(); @{bwtc::BWTManager::initialize}(&m, c); REACH("initialised"); ASSERT(npush == 1 && PUSHED != 0, "one sorter is chosen"); }
""", pre="static @T{bwtc::BWTManager} m;", defines=MANDEF, unwind=3, flags=UF))
    return G
