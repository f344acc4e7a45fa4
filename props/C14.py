from cbmc import Group
from check import Native
LEVEL = "proof"
EXPLANATION = ("Length computation, for every number of symbols up to 2^31: the merge phase joins the two smallest free weights at every step and records parents in order (lengths_merge); depths follow the parents (lengths_depth); "
               "the level phase gives every symbol exactly one length of at least one, uses up the code space exactly (Kraft equality) and never gives a rarer symbol a shorter length (lengths_level).  Codes: for every length table and pair of symbols the codes fit, differ and neither is a prefix of the other, and depend on the lengths only (codes). "
               "Shape: header, symbol list and lengths are written and read in the same order and the watched symbol gets its length back (shape_write, shape_read); collecting symbols (collect, collect_names).")
TRUSTED = ["Huffman's theorem: joining two smallest weights at every step gives an optimal code", "std::sort orders the list by weight; std::vector, std::fill through their contracts", "bit codes used for the shape: contracts proved in C06"]
ASSUMPTIONS = ["weights add up to less than 2^61", "code lengths below 48 (blocks are below 2^31 bytes, so the longest code has at most 44 bits)",
               "the phases are joined at their stated interfaces: parent k < PAR(k) <= n-2, PAR monotone, PAR(k) < PAR(k+2); depth is the number of parents; the Kraft equality proved for lengths_level is used in codes as parity and size of the partial sums"]
NATIVE = Native("c14.cpp", seconds=12, thorough_seconds=150, cxx=("-O2", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"), bound="random, Fibonacci-like, tied and full alphabets of 1 to 256 byte symbols and up to 3000 numbered symbols; lengths compared with a priority-queue Huffman cost, codes checked pairwise, shapes written and read back")
UF = ("--arrays-uf-always",)
CAD = ("--sat-solver", "cadical")

VDEF = r"""#include <stdint.h>
#include <stddef.h>
#define VP_VEC_STRUCT(N, T) struct vec_##N { T *d; size_t n; }; static inline T *vec_##N##_at(const struct vec_##N *v, size_t i) { __CPROVER_assert(i < v->n, "vector index in bounds"); return v->d + i; } \
static inline size_t vec_##N##_size(const struct vec_##N *v) { return v->n; } static inline T *vec_##N##_begin(const struct vec_##N *v) { return v->d; } static inline T *vec_##N##_end(const struct vec_##N *v) { return v->d + v->n; }
"""
FN = "utils::calculateCodeLengths"
PRE = r"""
static struct vec_pair_uint64_t_uint32_t cl; static uint64_t N, *F, SKI, SKJ, W; static unsigned sorts; static uint64_t xa, xb, la, lb, LW, T0, R0;
uint64_t __CPROVER_uninterpreted_wt(uint64_t); uint64_t __CPROVER_uninterpreted_par(uint64_t); uint64_t __CPROVER_uninterpreted_dep(uint64_t);
#define WT(k) __CPROVER_uninterpreted_wt(k)   /* weight of the k-th symbol in the order of the list */
#define PAR(k) __CPROVER_uninterpreted_par(k) /* parent of inner node k */
#define DEP(k) __CPROVER_uninterpreted_dep(k) /* its depth */
/* the list is in increasing order of weight */
static void ord(uint64_t i, uint64_t j) { if (i <= j && j < N) ASSUME(WT(i) <= WT(j)); }
static void vp_sort_pair_uint64_t_uint32_t(struct pair_uint64_t_uint32_t *b, struct pair_uint64_t_uint32_t *e) { ASSERT(b == cl.d && e == cl.d + N && !sorts, "the whole list is sorted, once"); sorts = 1; }
/* the two smallest weights still free: of inner nodes r.. and symbols s.. */
static void two(uint64_t r, uint64_t t, uint64_t s, const uint64_t *f) { const uint64_t INF = ~(uint64_t)0; uint64_t a = r < t ? f[r] : INF, b = r + 1 < t ? f[r + 1] : INF, c = s < N ? f[s] : INF, d = s + 1 < N ? f[s + 1] : INF;
  if (c <= a) { xa = c; xb = d <= a ? d : a; } else { xa = a; xb = c <= b ? c : b; } }
"""


BDEF = r"""#include <stdint.h>
#include <stddef.h>
#define VP_VEC_STRUCT(N, T) struct vec_##N { T d[256]; size_t n; }; static inline void vec_##N##_ctor(struct vec_##N *v) { v->n = 0; } static inline T *vec_##N##_at(const struct vec_##N *v, size_t i) { __CPROVER_assert(i < v->n, "vector index in bounds"); return (T*)v->d + i; } \
static inline size_t vec_##N##_size(const struct vec_##N *v) { return v->n; } static inline T *vec_##N##_back(const struct vec_##N *v) { __CPROVER_assert(v->n > 0, "back() of an empty vector"); return (T*)v->d + (v->n - 1); } \
static inline void vec_##N##_push_back(struct vec_##N *v, T x) { __CPROVER_assert(v->n < 256, "at most one entry per byte value"); v->d[v->n] = x; v->n++; }
"""
SPRE = r"""
static uint32_t CL[256], IN[256]; static uint64_t ev, un, ML, NS; static uint32_t WS, WT2, U, R, K; static uint8_t back; static _Bool seen, flushed; static struct vec_Bool bv;
uint8_t __CPROVER_uninterpreted_sym(uint64_t);
#define SYM(k) __CPROVER_uninterpreted_sym(k) /* k-th used symbol */
"""
CPRE = r"""
static uint32_t CLEN[256], CODE[256], SKI, S1, S2, C1, C2, G2; static int32_t W1, W2, L1, L2; int32_t nondet_i32(void);
uint32_t __CPROVER_uninterpreted_ct(uint32_t, uint32_t); uint32_t __CPROVER_uninterpreted_ks(uint32_t);
#define CT(l, i) __CPROVER_uninterpreted_ct(l, i) /* symbols below i of length l */
#define KS(l) __CPROVER_uninterpreted_ks(l)       /* sum of 2^(l-j) over symbols of length j >= l */
static void vp_fill_uint32_t(uint32_t *b, uint32_t *e, uint32_t v) { ASSERT(e - b == 256, "the whole table"); __CPROVER_array_set(b, v); }
static void count0(void) { ASSUME(CT(SKI, 0) == 0 && CT(L1, 0) == 0 && CT(L2, 0) == 0); }
static void count1(uint32_t l, uint32_t i) { ASSUME(CT(l, i + 1) == CT(l, i) + (CLEN[i] == l)); }
static void count(uint32_t i) { count1(SKI, i); count1(L1, i); count1(L2, i); ASSUME(CLEN[i] < 48); }
/* symbol w of length l is below i: counts grow with the index */
static void mem(uint32_t w, uint32_t l, uint32_t i) { ASSUME(CLEN[w] == l); count1(l, w); if (w < i) ASSUME(CT(l, w + 1) <= CT(l, i)); ASSUME(CT(l, i) <= 256 && CT(l, w) < 256); }
/* Kraft equality of the lengths (group lengths_level): sums of two or more levels are even and fill at most the level */
static void kraft(int32_t k, uint32_t v) { ASSUME(KS(k) == v && CT(k, 256) <= 256); ASSUME(v <= 256 && (k < 2 || v % 2 == 0) && (k > 8 || k < 1 || v <= (1u << k))); }
static _Bool fits(uint32_t c, int32_t l) { return c < 256 && (l > 8 || c < (1u << l)); }
"""
DPRE = r"""
static uint64_t BUD, GD, A5; static int HI, a0;
#define LV(k, top, p, d) ((k) > N - 2 || ((int64_t)(k) <= (top) ? DEP(k) >= (d) : (int64_t)(k) <= (int64_t)(top) + (p) ? DEP(k) + 1 == (d) : DEP(k) + 1 < (d)))
/* what the first phase establishes (group lengths_merge), and the definition of depth */
static void node(uint64_t k) { if (k < N - 2) ASSUME(PAR(k) > k && PAR(k) <= N - 2 && DEP(k) == DEP(PAR(k)) + 1); }
static void known(uint64_t k) { if (k <= N - 2) ASSUME(F[k] == DEP(k) && DEP(k) < N && DEP(k) + k <= N - 2); ASSUME(DEP(N - 2) == 0); }
static void mono(uint64_t k, uint64_t l) { if (k <= l && l <= N - 2) ASSUME(DEP(k) >= DEP(l)); }
static void pmono(uint64_t k, uint64_t l) { if (k <= l && l < N - 2) ASSUME(PAR(k) <= PAR(l)); }
"""


def triv_(inv, body=""):
    return dict(inv=["freqs == F && n == N"] + inv, pre="F = freqs;", havoc="__CPROVER_havoc_object(F);", frame=["freqs"], body=body)


def groups(tier):
    G = []
    BASE = "n == N && freqs == F && s <= n && r + s == 2 * t && t <= n - 1 && (t == 0 ? r == 0 : r < t)"
    merge = {FN: {
        0: dict(inv=["n == N && i <= n && freqs == F"], pre="F = freqs;", all=[dict(p="{0} >= i || freqs[{0}] == WT({0})", sk=("SKI",), at=(("SKJ",),)), dict(p="{0} >= i || freqs[{0}] == WT({0})", sk=("SKJ",))], havoc="__CPROVER_havoc_object(F);", body="ASSUME(cl.d[i].first == WT(i));", dec="n - i", frame=["freqs"]),
        1: dict(inv=[BASE, "la <= lb", "(t == 0 || (freqs[t - 1] == LW && LW == la + lb && LW < ((uint64_t)1 << 62))) && lb < ((uint64_t)1 << 62)"],
                all=[dict(p="{0} >= r || ({0} < freqs[{0}] && freqs[{0}] < t)", sk=("SKI",), at=(("SKJ",),)),
                     dict(p="!({0} <= {1} && {1} < r) || freqs[{0}] <= freqs[{1}]", sk=("SKI", "SKJ")),
                     dict(p="{0} + 2 >= r || freqs[{0}] < freqs[{0} + 2]", sk=("SKI",)),
                     dict(p="!(s <= {0} && {0} < n) || freqs[{0}] == WT({0})", sk=("SKI",), at=(("SKJ",), ("s",), ("(s + 1)",))),
                     dict(p="!(s <= {0} && {0} < n) || freqs[{0}] >= lb", sk=("SKI",), at=(("s",), ("(s + 1)",))),
                     dict(p="!(r <= {0} && {0} < t) || freqs[{0}] >= lb", sk=("SKI",), at=(("r",), ("(r + 1)",))),
                     dict(p="!(r <= {0} && {0} <= {1} && {1} < t) || freqs[{0}] <= freqs[{1}]", sk=("SKI", "SKJ"), at=(("r", "SKI"), ("(r + 1)", "SKI"), ("SKI", "(t - 1)"), ("r", "(r + 1)")))],
                pre="la = lb = LW = 0;", havoc="__CPROVER_havoc_object(F); la = nondet_u64(); lb = nondet_u64(); LW = nondet_u64();",
                body="T0 = t; R0 = r; ord(s, SKI); ord(s + 1, SKI); ord(s, s + 1); two(r, t, s, freqs); ASSUME(xa < ((uint64_t)1 << 61) && xb < ((uint64_t)1 << 61)); /* weights add up to less than 2^61 */",
                end="ASSERT(t == T0 + 1 && (SKI < R0 || SKI >= r || freqs[SKI] == T0), \"the node made is the parent of the nodes it joins\"); la = xa; lb = xb; LW = xa + xb;", dec="n - t", frame=["freqs"]),
        2: dict(pre='REACH("merged"); ASSERT(r == n - 2 && s == n, "every symbol and every node but the root has a parent"); ASSUME(0);', inv=[], havoc="", frame=["freqs"]),
        3: dict(inv=[], havoc="", frame=["freqs"]), 4: dict(inv=[], havoc=""), 5: dict(inv=[], havoc="", frame=["freqs"]), 6: dict(inv=[], havoc="", frame=["first", "freqs"])}}
    H = r"""
void harness(void) { N = nondet_u64(); ASSUME(N >= 2 && N < 0x7fffffff); cl.n = N; cl.d = malloc(N * sizeof *cl.d); _Bool own = nondet_bool(), sorted = nondet_bool(); F = own ? malloc(N * 8) : 0; SKI = nondet_u64(); SKJ = nondet_u64(); W = nondet_u64(); ASSUME(SKI < N && SKJ < N && W < N); %s
  @{utils::calculateCodeLengths}(&cl, F, sorted); %s }
"""
    G.append(Group("lengths_merge", H % ("", ""), pre=PRE, defines=VDEF, loops=merge, unwind=3, flags=UF, split=6, checks=False))
    DF = "({0} > N - 2 || ((int64_t){0} <= t ? freqs[{0}] == PAR({0}) : freqs[{0}] == DEP({0}) && DEP({0}) < N && DEP({0}) + {0} <= N - 2))"
    MONO = "!((int64_t){0} > t && {0} <= {1} && {1} <= N - 2) || DEP({0}) >= DEP({1})"
    LVL = "LV({0}, %s, a0 / 2, depth)"
    MON2 = "!({0} <= {1} && {1} <= N - 2) || DEP({0}) >= DEP({1})"
    KEEP = "(int64_t){0} > t || freqs[{0}] == DEP({0})"
    LEAF = "(int64_t){0} <= x || {0} >= N || (freqs[{0}] >= 1 && freqs[{0}] <= depth && freqs[{0}] < N)"
    LPAIR = "!((int64_t){0} > x && {0} <= {1} && {1} < N) || freqs[{0}] >= freqs[{1}]"
    AT = (("(uint64_t)t",), ("(uint64_t)(t + 1)",), ("PAR((uint64_t)t)",), ("(uint64_t)HI + 1",), ("(uint64_t)x",))
    A1 = (("SKJ",),) + AT
    ST = "freqs == F && n == N && a0 >= 0 && a0 < (int)N - HI && (depth == 0 ? a0 == 1 && HI == (int)N - 2 : a0 % 2 == 0 && HI <= (int)N - 3 && HI >= -1 && depth <= N)"
    def lv(top): return [dict(p=LVL % top, sk=("SKI",), at=A1), dict(p=MON2, sk=("SKI", "SKJ"), at=(("SKI", "(uint64_t)t"), ("(uint64_t)t", "PAR((uint64_t)t)"), ("(uint64_t)(t + 1)", "PAR((uint64_t)t)"))), dict(p=KEEP, sk=("SKI",), at=(("(uint64_t)t",),)), dict(p=LEAF, sk=("SKI",), at=(("SKJ",),)), dict(p=LPAIR, sk=("SKI", "SKJ")), dict(p="{0} > N - 2 || (DEP({0}) < N && DEP({0}) + {0} <= N - 2)", sk=("SKI",), at=A1)]
    depth = {FN: {
        0: triv_(["i <= n"]), 1: triv_(["s <= n && r <= n && t <= n - 1"], "ASSUME(s < n && r <= t);"),
        2: dict(inv=["freqs == F && n == N && t >= -1 && t <= (int)N - 3"], frame=["freqs"], dec="(int64_t)t + 1",
                pre='ASSERT(freqs[n - 2] == 0, "the root has no parent"); __CPROVER_havoc_object(F); ASSUME(F[N - 2] == 0 && DEP(N - 2) == 0); ASSUME((SKI >= N - 2 || F[SKI] == PAR(SKI)) && (SKJ >= N - 2 || F[SKJ] == PAR(SKJ)));',
                havoc="__CPROVER_havoc_object(F);", body="node((uint64_t)t); pmono((uint64_t)t, SKJ); node(SKJ);",
                all=[dict(p=DF, sk=("SKI",), at=(("SKJ",), ("(uint64_t)t",), ("PAR((uint64_t)t)",))), dict(p=MONO, sk=("SKI", "SKJ"), at=(("PAR((uint64_t)t)", "PAR(SKJ)"),))]),
        3: dict(inv=["u == 0", "freqs == F && n == N && a >= 0 && (depth == 0 ? a == 1 && t == (int)N - 2 : a % 2 == 0 && t <= (int)N - 3 && t >= -1 && depth <= N)", "a == x - t && x >= t && x < (int)N", "GD == depth && BUD == a"],
                pre="BUD = 1; GD = 0;", havoc="__CPROVER_havoc_object(F); BUD = nondet_u64(); GD = nondet_u64();", frame=["freqs"],
                all=None, body="HI = t; a0 = a; node((uint64_t)t);", end="BUD *= 2; GD++;", post='REACH("levels"); node((uint64_t)t); ASSERT(t == -1 && x == -1, "every inner node and every symbol got its level"); ASSERT(BUD == 0, "the lengths fill the code space exactly"); ASSERT(freqs[SKI] >= 1 && freqs[SKI] < n, "watched length is 1 or more"); ASSERT(SKI > SKJ || freqs[SKI] >= freqs[SKJ], "rarer symbols never get shorter codes");',
                dec="2 * ((int64_t)t + 1) + (a > 0)"),
        4: dict(inv=[ST, "t >= -1 && t <= HI && u == HI - t", "a == a0 && a == x - HI && x < (int)N", "GD == depth && BUD == a", "u == 0 || (depth == 0 ? u == 1 : PAR((uint64_t)(t + 1)) <= (uint64_t)(HI + a0 / 2 - (u - 1) / 2) && u <= a0)", "u < 2 || PAR((uint64_t)(t + 2)) <= (uint64_t)(HI + a0 / 2 - (u - 2) / 2)"],
                body="node((uint64_t)t); pmono((uint64_t)t, (uint64_t)(t + 1)); if (t >= 0 && (uint64_t)t + 2 < N - 2) ASSUME(PAR((uint64_t)t) < PAR((uint64_t)t + 2));", havoc="", dec="(int64_t)t + 1",
                all=lv("HI") + [dict(p="!((int64_t){0} > t && (int64_t){0} <= HI) || DEP({0}) == depth", sk=("SKI",), at=A1)]),
        5: dict(inv=[ST, "t >= -1 && t <= HI && u == HI - t && u <= a && (depth > 0 || u == a)", "a <= a0 && a == x - HI && x < (int)N", "GD == depth && BUD == a"],
                havoc="__CPROVER_havoc_object(F); BUD = nondet_u64();", frame=["freqs"], body='ASSERT(x >= 0 && x < (int)N && GD == depth && BUD > 0, "a symbol takes one code of this length");', end="BUD--;", dec="a", pre="A5 = 0;",
                all=lv("HI") + [dict(p="!((int64_t){0} > t && (int64_t){0} <= HI) || DEP({0}) == depth", sk=("SKI",), at=A1), dict(p="(int64_t){0} > t || DEP({0}) > depth", sk=("SKI",), at=A1)]),
        6: dict(inv=["i <= n && freqs == F && n == N"], frame=["first", "freqs"], havoc="__CPROVER_havoc_object(cl.d);", dec="n - i", all=[dict(p="{0} >= i || codeLengths->d[{0}].first == freqs[{0}]", sk=("SKI",))], post='REACH("done"); ASSERT(cl.d[SKI].first == freqs[SKI], "watched symbol gets its length");')}}
    depth[FN][3]["all"] = [dict(x, p=x["p"].replace("a0", "a").replace("HI", "t")) if "LV(" in x["p"] else x for x in lv("t")]
    stop = {FN: dict(depth[FN])}
    stop[FN][3] = dict(pre='REACH("depths"); ASSERT(SKI > N - 2 || F[SKI] == DEP(SKI), "watched inner node gets its depth"); ASSERT(!(SKI <= SKJ && SKJ <= N - 2) || DEP(SKI) >= DEP(SKJ), "depths decrease along the list"); ASSERT(SKI > N - 2 || (DEP(SKI) < N && DEP(SKI) + SKI <= N - 2), "depths are less than the number of nodes"); ASSERT(a == 1 && u == 0 && depth == 0 && x == (int)n - 1 && t == (int)n - 2, "levels start at the root"); ASSUME(0);', inv=[], havoc="", frame=["freqs"])
    for k in (4, 5): stop[FN][k] = dict(inv=[], havoc="", frame=["freqs"])
    stop[FN][6] = dict(inv=[], havoc="", frame=["first", "freqs"])
    G.append(Group("lengths_depth", H % ("", ""), pre=PRE + DPRE, defines=VDEF, loops=stop, unwind=3, flags=UF, split=6, checks=False))
    depth[FN][2] = dict(inv=["freqs == F && n == N && t >= -1 && t <= (int)N - 3"], havoc="__CPROVER_havoc_object(F);", frame=["freqs"], body="ASSUME(freqs[t] < n);")
    depth[FN][3]["pre"] = "__CPROVER_havoc_object(F); known(SKI); known(SKJ); mono(SKI, SKJ); " + depth[FN][3]["pre"]
    G.append(Group("lengths_level", H % ("", ""), pre=PRE + DPRE, defines=VDEF, loops=depth, unwind=3, flags=UF, split=6, checks=False))
    CF = "utils::computeHuffmanCodes"
    LC = "{0} >= 256 || lengthsCount[{0}] == CT({0}, 256)"
    cl = {CF: {
        0: dict(inv=["0 <= k && k <= 256 && clen == CLEN && code == CODE"], pre="count0();", havoc="__CPROVER_havoc_object(lengthsCount);", body="count(k);", frame=["lengthsCount"], dec="256 - k",
                all=[dict(p="{0} >= 256 || lengthsCount[{0}] == CT({0}, k)", sk=("SKI",))]),
        1: dict(inv=["0 <= k && k <= 256 && clen == CLEN && code == CODE && maxCodeLen >= 0 && maxCodeLen < 256", "k <= L2 || maxCodeLen >= L2", "k <= L1 || maxCodeLen >= L1"], havoc="", dec="256 - k",
                body="mem(W1, L1, 256); mem(W2, L2, 256);", all=[dict(p=LC, sk=("SKI",), at=(("L1",), ("L2",)))]),
        2: dict(inv=["-1 <= k && k <= maxCodeLen && maxCodeLen >= L1 && maxCodeLen >= L2 && maxCodeLen < 256 && clen == CLEN && code == CODE", "k < maxCodeLen || first == 0", "first <= 128", "k == maxCodeLen || first == KS(k + 1) >> 1",
                     "k >= L2 || (start[L2] == S2 && S2 <= 256 && C2 == S2 + CT(L2, W2) && fits(C2, L2) && (k < 1 || (G2 == ((uint64_t)C2 >> (L2 - k)) && G2 < first)))",
                     "k >= L1 || (start[L1] == S1 && S1 <= 256 && C1 == S1 + CT(L1, W1) && fits(C1, L1))", "k >= L1 || L1 >= L2 || ((uint64_t)C2 >> (L2 - L1)) < S1"],
                pre="S1 = S2 = C1 = C2 = G2 = 0;", havoc="__CPROVER_havoc_object(start); S1 = nondet_u32(); S2 = nondet_u32(); C1 = nondet_u32(); C2 = nondet_u32(); G2 = nondet_u32();", frame=["start"], dec="k + 1",
                body="kraft(k, lengthsCount[k] + first); mem(W1, L1, 256); mem(W2, L2, 256); if (L1 == L2) mem(W1, L1, W2);",
                end="if (k + 1 == L1) { S1 = start[L1]; C1 = S1 + CT(L1, W1); } if (k + 1 == L2) { S2 = start[L2]; C2 = S2 + CT(L2, W2); G2 = C2; } if (k + 1 <= L2) G2 >>= 1;",
                all=[dict(p=LC, sk=("SKI",), at=(("(uint32_t)k",), ("L1",), ("L2",)))]),
        3: dict(inv=["0 <= k && k <= 256 && clen == CLEN && code == CODE", "start[L1] == S1 + CT(L1, k) && start[L2] == S2 + CT(L2, k)", "k <= W1 || code[W1] == C1", "k <= W2 || code[W2] == C2"],
                pre="count0();", havoc="__CPROVER_havoc_object(start); __CPROVER_havoc_object(CODE);", body="count(k); ASSUME(CLEN[k] < 48);", frame=["start", "code"], dec="256 - k")}}
    G.append(Group("codes", r"""
void harness(void) { __CPROVER_havoc_object(CLEN); __CPROVER_havoc_object(CODE); W1 = nondet_i32(); W2 = nondet_i32(); SKI = nondet_u32(); ASSUME(W1 >= 0 && W1 < 256 && W2 >= 0 && W2 < 256 && W1 != W2); L1 = CLEN[W1]; L2 = CLEN[W2]; ASSUME(L1 >= 1 && L1 < 48 && L2 >= 1 && L2 < 48 && L1 <= L2 && (L1 < L2 || W1 < W2)); ASSUME(SKI < 256);
  @{utils::computeHuffmanCodes}(CLEN, CODE); REACH("codes"); mem(W1, L1, 256); mem(W2, L2, 256); mem(W1, L1, W2);
  ASSERT(CODE[W1] == S1 + CT(L1, W1) && CODE[W2] == S2 + CT(L2, W2), "codes are a function of the lengths"); ASSERT(fits(CODE[W1], L1) && fits(CODE[W2], L2), "codes fit their lengths, at most eight bits are set");
  if (L1 == L2) ASSERT(CODE[W1] < CODE[W2], "codes of the same length differ"); else ASSERT(((uint64_t)CODE[W2] >> (L2 - L1)) < CODE[W1], "no code is a prefix of another"); }
""", pre=CPRE, loops=cl, unwind=3, flags=UF, split=4, checks=False))
    # transmitted shape: header fields, interpolative list of symbols, one unary length each; calls checked in order against the contracts of C06
    G.append(Group("shape_write", r"""
static void c_push(struct vec_Bool *v, uint64_t x, size_t b) { ASSERT(v == &bv && b == 8, "one byte"); if (ev == 0) ASSERT(x == back, "largest symbol"); else if (ev == 1) ASSERT((x & 255) == (NS & 255), "number of symbols, 256 as 0"); else ASSERT(ev == 2 && x == ML, "longest length"); ++ev; }
static void c_push8(struct vec_Bool *v, uint8_t x, size_t b) { c_push(v, x, b); }
static uint64_t c_pack(uint64_t x, int *b) { ASSERT(x < 128, "one byte is enough for the longest length"); *b = 1; return x; }
static void c_list(struct vec_uint8_t *s, uint64_t m, struct vec_Bool *v) { ASSERT(ev == 3 && m == back && v == &bv && s->n == NS, "list of symbols"); ASSERT(R < s->n && s->d[R] == WS, "watched symbol is in the list"); ASSERT(K >= s->n || CL[s->d[K]] > 0, "only used symbols"); ASSERT(K + 1 >= s->n || s->d[K] < s->d[K + 1], "in increasing order"); ++ev; }
static void c_unary(struct vec_Bool *v, uint64_t n) { ASSERT(ev == 4 && v == &bv, "lengths follow the list"); ASSERT(n >= 1, "unary codes are positive"); if (un == R) { seen = 1; ASSERT(n == ML - CL[WS] + 1, "watched symbol's length"); } ++un; }
void harness(void) { __CPROVER_havoc_object(CL); WS = nondet_u8(); R = nondet_u32(); K = nondet_u32(); ASSUME(R <= WS && K < 256 && CL[WS] > 0 && CL[WS] < 48);
  @{bwtc::HuffmanEncoder::serializeShape}(0, CL, &bv); REACH("written"); ASSERT(ev == 4 && un == NS && seen, "every length written"); }
""", pre=SPRE + "static void c_push(struct vec_Bool *, uint64_t, size_t); static void c_push8(struct vec_Bool *, uint8_t, size_t); static uint64_t c_pack(uint64_t, int *); static void c_list(struct vec_uint8_t *, uint64_t, struct vec_Bool *); static void c_unary(struct vec_Bool *, uint64_t);", defines=BDEF,
        stubs={"utils::pushBits|(std::vector<bool> &, unsigned long, size_t)": "c_push", "utils::pushBits|(std::vector<bool> &, unsigned char, size_t)": "c_push8", "utils::packInteger": "c_pack", "utils::binaryInterpolativeCode|const std::vector<unsigned char> &, size_t, std::vector<bool> &": "c_list", "utils::unaryCode": "c_unary"},
        loops={"bwtc::HuffmanEncoder::serializeShape": {
            0: dict(inv=["i <= 256 && b == (uint8_t)i && clen == CL && vec == &bv && maxLen < 48 && symbols.n <= i", "i <= WS || (symbols.n > R && symbols.d[R] == WS && maxLen >= CL[WS])"],
                    all=[dict(p="{0} >= symbols.n || (symbols.d[{0}] < i && CL[symbols.d[{0}]] > 0 && CL[symbols.d[{0}]] <= maxLen)", sk=("K",), at=(("(symbols.n - 1)",),)), dict(p="{0} + 1 >= symbols.n || symbols.d[{0}] < symbols.d[{0} + 1]", sk=("K",), at=(("(symbols.n - 2)",),))],
                    havoc="__CPROVER_havoc_object(&symbols);", body="ASSUME(CL[i] < 48); /* the watched symbol is the R-th used one */ if (i == WS) ASSUME(symbols.n == R); ", dec="256 - i", post="NS = symbols.n; back = *vec_uint8_t_back(&symbols); ML = maxLen;"),
            1: dict(inv=["i <= symbols.n && symbols.n == NS && un == i && ev == 4 && vec == &bv && clen == CL && maxLen == ML && (i <= R || seen)"], havoc="un = nondet_u64(); seen = nondet_bool();", body="ASSUME(i == R ? symbols.d[i] == WS : 1); ASSUME(CL[symbols.d[i]] <= ML);", dec="symbols.n - i")}}, unwind=3, flags=UF, checks=False))
    G.append(Group("shape_read", r"""
static uint8_t c_byte(void *in) { ++ev; return ev == 1 ? back : ev == 2 ? (uint8_t)NS : (ASSERT(ev == 3, "three header bytes"), (uint8_t)ML); }
static uint64_t c_list(struct vec_uint8_t *a, void *in, size_t m, size_t n) { ASSERT(ev == 3 && m == back && n == NS && a->n == 0, "list of symbols"); ++ev; __CPROVER_havoc_object(a); a->n = NS; ASSUME(a->d[R] == SYM(R)); return nondet_u64(); }
static uint64_t c_unary(void *in) { ASSERT(ev == 4 && un < NS, "lengths follow the list"); return ML - CL[SYM(un++)] + 1; }
static void c_flush(void *in) { ASSERT(ev == 4 && un == NS, "the rest of the last byte is skipped"); flushed = 1; }
void harness(void) { __CPROVER_havoc_object(CL); __CPROVER_havoc_object(IN); NS = nondet_u64(); ASSUME(NS >= 1 && NS <= 256); R = nondet_u32(); U = nondet_u8(); ML = nondet_u8(); back = nondet_u8(); uint32_t was = IN[U]; ASSUME(ML < 48 && R < NS);
  ASSUME(CL[U] == 0 && CL[SYM(R)] > 0); @{bwtc::HuffmanDecoder::deserializeShape}(0, (void*)0, IN); REACH("read"); ASSERT(flushed, "stream aligned"); ASSERT(IN[SYM(R)] == CL[SYM(R)], "watched symbol gets its length"); ASSERT(IN[U] == was, "unused symbols get none"); }
""", pre=SPRE + "static uint8_t c_byte(void *); static uint64_t c_list(struct vec_uint8_t *, void *, size_t, size_t); static uint64_t c_unary(void *); static void c_flush(void *);", defines=BDEF,
        stubs={"bwtc::InStream::readByte": "c_byte", "bwtc::InStream::flushBuffer": "c_flush", "utils::binaryInterpolativeDecode|size_t (std::vector<unsigned char> &, bwtc::InStream &, size_t, size_t)": "c_list", "utils::unaryDecode": "c_unary"},
        loops={"bwtc::HuffmanDecoder::deserializeShape": {1: dict(inv=["i <= symbols && symbols == NS && un == i && ev == 4 && clen == IN && maxLen == ML && alphabet.n == NS && !flushed", "i <= R || IN[SYM(R)] == CL[SYM(R)]", "IN[U] == VP_was"], pre="uint32_t VP_was = IN[U];",
            havoc="un = nondet_u64(); __CPROVER_havoc_object(IN);", body="ASSUME(alphabet.d[i] == SYM(i) && CL[SYM(i)] > 0 && CL[SYM(i)] <= ML); ASSUME(i == R || SYM(i) != SYM(R)); ", frame=["clen"], dec="symbols - i")}}, unwind=3, flags=UF, checks=False))
    for nm, sig, arg, name in (("collect", "uint64 *, uint32)", "FQ, AL", "{0}"), ("collect_names", "const std::vector<uint32> &)", "FQ, &names", "NM({0})")):
        G.append(Group(nm, r"""
static void c_len(struct vec_pair_uint64_t_uint32_t *v, uint64_t *f, _Bool s) { ++calls; ASSERT(v == &cl && f == FQ && !s, "lengths of the collected symbols, not yet sorted"); ASSERT((FQ[W] != 0) == seen, "a symbol that occurs is in the list"); ASSERT(!seen || (R < v->n && v->d[R].first == FQ[W] && v->d[R].second == """ + name.format("(uint32_t)W") + r"""), "with its weight");
  ASSERT(SKI >= v->n || v->d[SKI].first != 0, "symbols that do not occur are left out"); }
void harness(void) { AL = nondet_u32(); ASSUME(AL >= 1 && AL < 0x7fffffff); N = AL; FQ = malloc((uint64_t)AL * 8); cl.d = malloc((uint64_t)AL * sizeof *cl.d); cl.n = 0; """ + ("names.d = malloc((uint64_t)AL * 4); names.n = AL;" if "names" in nm else "") + r""" W = nondet_u64(); SKI = nondet_u64(); ASSUME(W < AL && SKI < AL); """ + ("ASSUME(names.d[W] == NM((uint32_t)W));" if "names" in nm else "") + r"""
  @{utils::calculateHuffmanLengths|""" + sig + r"""}(&cl, """ + arg + r"""); REACH("collected"); ASSERT(calls == 1, "lengths computed"); }
""", pre=r"""static struct vec_pair_uint64_t_uint32_t cl; """ + ("static struct vec_uint32_t names; " if "names" in nm else "") + r"""static uint32_t AL; static uint64_t N, *FQ, W, SKI, R; static unsigned calls; static _Bool seen; uint32_t __CPROVER_uninterpreted_nm(uint32_t);
#define NM(k) __CPROVER_uninterpreted_nm(k)
static void c_len(struct vec_pair_uint64_t_uint32_t *v, uint64_t *f, _Bool s);""", defines=VDEF + r"""
#undef VP_VEC_STRUCT
#define VP_VEC_STRUCT(N, T) struct vec_##N { T *d; size_t n; }; static inline T *vec_##N##_at(const struct vec_##N *v, size_t i) { __CPROVER_assert(i < v->n, "vector index in bounds"); return v->d + i; } static inline size_t vec_##N##_size(const struct vec_##N *v) { return v->n; } \
static inline void vec_##N##_push_back(struct vec_##N *v, T x) { v->d[v->n] = x; v->n++; }
""", stubs={"utils::calculateCodeLengths": "c_len"},
            loops={"utils::calculateHuffmanLengths": {0: dict(inv=["i <= N && codeLengths == &cl && freqs == FQ && cl.n <= i", "(i <= W || seen == (FQ[W] != 0)) && (i > W || !seen)", "!seen || (R < cl.n && cl.d[R].first == FQ[W] && cl.d[R].second == %s)" % name.format("(uint32_t)W")], all=[dict(p="{0} >= cl.n || cl.d[{0}].first != 0", sk=("SKI",))],
                havoc="{ struct pair_uint64_t_uint32_t *d = cl.d; cl.n = nondet_u64(); cl.d = d; } __CPROVER_havoc_object(cl.d); R = nondet_u64(); seen = nondet_bool();", body="if (i == W && FQ[W] != 0) { R = cl.n; seen = 1; } uint64_t n0 = cl.n; _Bool z = FQ[i] != 0;", end='ASSERT(cl.n == n0 + z, "one entry per symbol that occurs");', dec="N - i")}}, unwind=3, flags=UF, checks=False))
    return G
