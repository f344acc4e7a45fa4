from cbmc import Group
from check import Native
LEVEL = "proof"
EXPLANATION = ("Codes, for every list of lengths: every symbol of the list gets one leaf, at its length, and the code recorded for it is the path to the leaf (assign, assign_root, collect_bytes, collect_integers). "
               "Runs, for every block and run length: the bits of the symbol's code and of the run length's code go into the nodes on their path, one bit per node, and the tree keeps its shape (push_code, push_integer, push_run, push_runs). "
               "Shape: every field is written once and read back in the same order from the same place (shape_write, shape_read). Bit vectors: encodeTreeBF and decodeTreeBF visit the nodes in the same order, make the same model calls with the same context, and every bit decoded goes where the encoder took it from (bits_write, bits_read). "
               "message(): every bit selects the child, the rank in the node gives the place there, and symbol and run length come from the codes reached (message). The round trip through WaveletEncoder and a fresh tree is run natively.")
TRUSTED = ["std::map, std::list, std::queue, std::vector and std::sort through their contracts", "packed integers, interpolative, unary and fixed codes: contracts proved in C06; code lengths: C14; runs of a block: C07; models and arithmetic coder: C03, C02"]
ASSUMPTIONS = ["lengths handed to assignPrefixCodes are those of a complete code (Kraft equality; C14), in canonical order", "codes pushed are paths of the tree (established by assign and collect_*)", "neighbouring runs have different symbols (proved in C07)", "a right child is a leaf only where the left one is (canonical shape, from the length order)",
               "gap vector and bit vector of a node have the same size", "message() visits a node in order, so bitsSeen counts the ones before the place", "sizes below 2^40", "findParametersForSemiFixedCodes and bitsForIntegers: native only (they choose a code, they do not change what is decoded)"]
NATIVE = Native("c16.cpp", seconds=14, thorough_seconds=200, cxx=("-O2", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"), bound="every block of up to 6 bytes over two and up to 4 bytes over four values, samples of 7 to 9 and 5, single runs around every power of two up to 2^17, alphabets of 1 to 256 symbols, chosen frequencies of run lengths, random blocks up to 32 kB, random complete codes; all six models, up to three sections")
UF = ("--arrays-uf-always",)
WT = "bwtc::WaveletTree<std::vector<bool>>::"
TN = "bwtc::TreeNode<std::vector<bool>>::"
# bit vectors are seen through their calls only; other vectors hold their elements
DEF = r"""#include <stdint.h>
#include <stddef.h>
struct vec_Bool { size_t n; }; static void bv_push(struct vec_Bool *v, _Bool b); static void bv_pop(struct vec_Bool *v); static _Bool *bv_at(const struct vec_Bool *v, size_t i); static void bv_copy(struct vec_Bool *v, const struct vec_Bool *o);
static inline void vec_Bool_ctor(struct vec_Bool *v) { v->n = 0; }
static inline void vec_Bool_reserve(struct vec_Bool *v, size_t n) {}
#define vec_Bool_push_back bv_push
#define vec_Bool_pop_back bv_pop
#define vec_Bool_at bv_at
#define vec_Bool_copy bv_copy
static inline size_t vec_Bool_size(const struct vec_Bool *v) { return v->n; }
static inline _Bool *vec_Bool_back(const struct vec_Bool *v) { __CPROVER_assert(v->n > 0, "back() of an empty vector"); return bv_at(v, v->n - 1); }
#define VP_VEC_STRUCT(N, T) VPV_##N(N, T)
#define VPV_Bool(N, T)
#define VPV_uint8_t(N, T) VPV_(N, T, 256)
#define VPV_uint32_t VPV
#define VPV_uint64_t VPV
#define VPV_pair_uint64_t_uint32_t VPV
#define VPV(N, T) struct vec_##N { T *d; size_t n; }; static inline void vec_##N##_ctor(struct vec_##N *v) { v->d = vp_##N##_store; v->n = 0; } VPV_ALL(N, T)
#define VPV_(N, T, C) struct vec_##N { T d[C]; size_t n; }; static inline void vec_##N##_ctor(struct vec_##N *v) { v->n = 0; } VPV_ALL(N, T)
#define VPV_ALL(N, T) static inline T *vec_##N##_at(const struct vec_##N *v, size_t i) { __CPROVER_assert(i < v->n, "vector index in bounds"); return (T*)v->d + i; } \
static inline size_t vec_##N##_size(const struct vec_##N *v) { return v->n; } static inline T *vec_##N##_back(const struct vec_##N *v) { __CPROVER_assert(v->n > 0, "back() of an empty vector"); return (T*)v->d + (v->n - 1); } \
static inline T *vec_##N##_begin(const struct vec_##N *v) { return (T*)v->d; } static inline T *vec_##N##_end(const struct vec_##N *v) { return (T*)v->d + v->n; } \
static inline void vec_##N##_push_back(struct vec_##N *v, T x) { v->d[v->n] = x; v->n++; }
static uint32_t *vp_uint32_t_store; static uint64_t *vp_uint64_t_store; struct pair_uint64_t_uint32_t; static struct pair_uint64_t_uint32_t *vp_pair_uint64_t_uint32_t_store;
#define VP_MAP_STRUCT(N, K, V) struct map_##N { struct pair_##N *d; size_t n; }; static inline struct pair_##N *map_##N##_begin(const struct map_##N *m) { return m->d; } static inline struct pair_##N *map_##N##_end(const struct map_##N *m) { return m->d + m->n; } static inline size_t map_##N##_size(const struct map_##N *m) { return m->n; } \
static struct pair_##N *map_##N##_find(const struct map_##N *m, K k); static V *map_##N##_at(struct map_##N *m, K k);
"""
NODE = r"""
typedef struct TreeNode_std_vector_bool node_t; typedef struct WaveletTree_std_vector_bool tree_t;
uint8_t __CPROVER_uninterpreted_bit(uint64_t);
#define BIT(k) ((_Bool)(__CPROVER_uninterpreted_bit(k) & 1)) /* k-th bit of the code pushed */
static node_t ROOT, NEXT, LN, RN, *AT0; static struct vec_Bool *CODE; static tree_t TREE; static unsigned pushes, news; static _Bool pushed, hl, hr, tmpb; static uint32_t RUN;
static void fresh(node_t *n) { n->m_left = hl ? &LN : 0; n->m_right = hr ? &RN : 0; }
"""
ATB = r"""
static _Bool *bv_at(const struct vec_Bool *v, size_t i) { ASSERT(v == CODE && i < v->n, "bit of the code"); tmpb = BIT(i); return &tmpb; }
static void bv_push(struct vec_Bool *v, _Bool b) { ASSERT(v == &AT0->m_bitVector, "into the node reached"); pushed = b; ++pushes; }
"""


def groups(tier):
    G = []
    PB = WT + "pushBits|TreeNode<vector<bool, allocator<bool>>> *(const std::vector<bool> &)"
    step = dict(havoc="pushes = nondet_u32();", dec="bits->n - i")
    G.append(Group("push_code", r"""
void harness(void) { struct vec_Bool code; CODE = &code; TREE.m_root = &ROOT; pushes = 0; node_t *r = @{""" + PB + r"""}(&TREE, &code); REACH("pushed"); ASSERT(r == (code.n == 0 ? &ROOT : &NEXT), "the node reached is returned"); ASSERT(code.n == 0 || pushes == 1, "one bit per node"); }
""", pre=NODE + ATB, defines=DEF, loops={WT + "pushBits": {0: dict(step, inv=["i <= bits->n && bits == CODE && pushes == (i > 0) && node == (i == 0 ? &ROOT : &NEXT)"], frame=["node"],
        body="node = i == 0 ? &ROOT : &NEXT; hl = nondet_bool(); hr = nondet_bool(); ASSUME(BIT(i) ? hr : hl); /* codes are paths of the tree */ fresh(node); AT0 = node; pushes = 0; RN.m_left = RN.m_right = LN.m_left = LN.m_right = 0;",
        end='ASSERT(pushes == 1 && pushed == BIT(i - 1), "the bit goes into the node"); ASSERT(node == (BIT(i - 1) ? &RN : &LN), "and selects the child"); ASSERT(AT0->m_left == (hl ? &LN : 0) && AT0->m_right == (hr ? &RN : 0), "the tree keeps its shape"); node = &NEXT;')}}, unwind=2, flags=UF))
    G.append(Group("push_integer", r"""
static void c_new(node_t *n) { n->m_left = n->m_right = 0; n->m_hasSymbol = 0; n->m_bitVector.n = 0; }
static void c_leaf(node_t *n, uint32_t s) { ASSERT(s == RUN, "leaf of this run length"); c_new(n); n->m_symbol = s; n->m_hasSymbol = 1; ++news; }
void harness(void) { struct vec_Bool code; CODE = &code; ASSUME(code.n >= 1); RUN = nondet_u32(); pushes = 0; news = 0; ROOT.m_left = ROOT.m_right = 0; AT0 = &ROOT; if (code.n == 1) { hl = nondet_bool(); hr = nondet_bool(); fresh(&ROOT); }
  @{""" + WT + r"""pushBits|, uint32)}(&ROOT, &code, RUN); REACH("pushed"); _Bool b = BIT(code.n - 1); node_t *c = b ? AT0->m_right : AT0->m_left; ASSERT(pushes == 1 && pushed == b, "last bit goes into the last node"); ASSERT(AT0 == (code.n == 1 ? &ROOT : &NEXT), "which is at the end of the path");
  ASSERT(c == ((b ? hr : hl) ? (b ? &RN : &LN) : c) && c != 0, "leaf kept or made"); ASSERT(news == !(b ? hr : hl) && (!news || (c->m_hasSymbol && c->m_symbol == RUN)), "a new leaf holds the run length"); ASSERT((b ? AT0->m_left == (hl ? &LN : 0) : AT0->m_right == (hr ? &RN : 0)), "the other child is untouched"); }
""", pre=NODE + ATB + "static void c_new(node_t *); static void c_leaf(node_t *, uint32_t);", defines=DEF, stubs={TN + "TreeNode|void ()": "c_new", TN + "TreeNode|void (uint32)": "c_leaf"}, loops={WT + "pushBits": {0: dict(step, inv=["i <= bits->n - 1 && bits == CODE && pushes == 0 && news == 0 && node == AT0 && node == (i == 0 ? &ROOT : &NEXT)", "i > 0 || bits->n == 1 || (!ROOT.m_left && !ROOT.m_right)"], frame=["node", "m_left", "m_right"],
        pre="AT0 = node;", havoc="pushes = 0; AT0 = i ? &NEXT : &ROOT; node = AT0; if (i) { hl = nondet_bool(); hr = nondet_bool(); fresh(&NEXT); }", body="AT0 = node; if (i == 0) { hl = nondet_bool(); hr = nondet_bool(); fresh(node); }",
        end='ASSERT(pushes == 1 && pushed == BIT(i - 1), "the bit goes into the node"); ASSERT(node == (BIT(i - 1) ? AT0->m_right : AT0->m_left) && node != 0, "and selects the child"); ASSERT((BIT(i - 1) ? hr : hl) ? node == (BIT(i - 1) ? &RN : &LN) : !node->m_hasSymbol && !node->m_left && !node->m_right, "children are kept, a new one is an inner node"); ASSERT(BIT(i - 1) ? AT0->m_left == (hl ? &LN : 0) : AT0->m_right == (hr ? &RN : 0), "the other child is untouched"); node = &NEXT; AT0 = &NEXT; pushes = 0; hl = nondet_bool(); hr = nondet_bool(); fresh(&NEXT);')}}, unwind=2, flags=UF))
    import C07
    G += [g for g in C07.groups(tier) if "pushMessage" in g.body]   # the runs of the block, in order
    # one activation of the recursion; the call inside is checked against the same contract
    G.append(Group("assign", r"""
static void c_new(node_t *n) { n->m_left = n->m_right = 0; n->m_hasSymbol = 0; n->m_bitVector.n = 0; }
static void c_leaf(node_t *n, uint32_t s) { ASSERT(P < N && s == L[P].second && BITS + 1 == L[P].first, "a leaf at the length of the next symbol"); ++P; c_new(n); n->m_symbol = s; n->m_hasSymbol = 1; ++news; }
static uint64_t c_rec(struct vec_pair_uint64_t_uint32_t *l, node_t *n, size_t e, size_t b) { ASSERT(l == &LS && e == P, "the next symbol goes on"); uint64_t r = nondet_u64(); ASSUME(r >= P && r <= N && (P == N || r > P)); ASSERT(!n->m_right, "right child is still free");
  if (n == NODE) { ASSERT(b == BITS && n->m_left != 0, "same node, same depth, left child taken"); same = 1; rn = n->m_right = nondet_bool() ? &RN : 0; } else { ASSERT(b == BITS + 1 && !n->m_hasSymbol && !n->m_left && (n == NODE->m_left || n == NODE->m_right), "a new inner child, one deeper"); if (n == NODE->m_right) ++deep; }
  P = r; /* Kraft equality: what follows the left subtree belongs below this node */ if (n == NODE->m_left && r < N) ASSUME(L[r].first >= BITS + 2); return r; }
void harness(void) { N = nondet_u64(); ASSUME(N < ((uint64_t)1 << 32)); LS.n = N; L = LS.d = malloc(N * sizeof *L); NODE = &ROOT; hl = nondet_bool(); hr = 0; fresh(&ROOT); ROOT.m_hasSymbol = nondet_bool(); P = nondet_u64(); BITS = nondet_u64(); uint64_t e = P; ASSUME(P <= N && BITS < ((uint64_t)1 << 32) && (P == N || (L[P].first >= BITS + 1 && L[P].first < ((uint64_t)1 << 33)))); /* the code is not full above */ same = 0; deep = news = 0;
  uint64_t r = @{""" + WT + r"""assignPrefixCodes|size_t (}(&LS, &ROOT, e, BITS); REACH("assigned"); ASSERT(r == P && r <= N && (e == N || r > e), "symbols are used up in order, each in one leaf"); ASSERT(!hl || ROOT.m_left == &LN, "an existing left child is kept");
  if (e < N && hl) ASSERT(ROOT.m_right && (news ? news == 1 && deep == 0 && ROOT.m_right->m_hasSymbol : deep == 1), "the right child is a leaf or an inner node"); if (e < N && !hl) ASSERT(ROOT.m_left && (ROOT.m_left->m_hasSymbol ? news == 1 && same : news == 0), "the left child comes first"); if (e == N) ASSERT(ROOT.m_left == (hl ? &LN : 0) && !ROOT.m_right && !news, "nothing left to assign"); }
""", pre=NODE + "static struct vec_pair_uint64_t_uint32_t LS; static struct pair_uint64_t_uint32_t *L; static node_t *NODE, *rn; static uint64_t N, P, BITS; static _Bool same; static unsigned deep; static void c_new(node_t *); static void c_leaf(node_t *, uint32_t); static uint64_t c_rec(struct vec_pair_uint64_t_uint32_t *, node_t *, size_t, size_t);", defines=DEF,
        stubs={TN + "TreeNode|void ()": "c_new", TN + "TreeNode|void (uint32)": "c_leaf", WT + "assignPrefixCodes#rec": "c_rec"}, unwind=2, flags=UF, checks=False))
    G.append(Group("assign_root", r"""
static void c_new(node_t *n) { n->m_left = n->m_right = 0; n->m_hasSymbol = 0; n->m_bitVector.n = 0; ++news; }
static void vp_sort_pair_uint64_t_uint32_t(struct pair_uint64_t_uint32_t *b, struct pair_uint64_t_uint32_t *e) { ASSERT(b == LS.d && e == LS.d + LS.n && !sorted, "the whole list is sorted first"); sorted = 1; }
static uint64_t c_rec(struct vec_pair_uint64_t_uint32_t *l, node_t *n, size_t e, size_t b) { ASSERT(sorted && l == &LS && n == TREE.m_root && news == 1 && e == 0 && b == 0 && !n->m_left && !n->m_right && !n->m_hasSymbol, "codes start at a new root"); ++calls; return l->n; }
void harness(void) { LS.n = nondet_u64(); ASSUME(LS.n < ((uint64_t)1 << 32)); LS.d = malloc(LS.n * sizeof *LS.d); sorted = 0; news = calls = 0; @{""" + WT + r"""assignPrefixCodes|void (}(&TREE, &LS); REACH("rooted"); ASSERT(calls == 1, "codes assigned once"); }
""", pre=NODE + "static struct vec_pair_uint64_t_uint32_t LS; static _Bool sorted; static unsigned calls; static void c_new(node_t *); static uint64_t c_rec(struct vec_pair_uint64_t_uint32_t *, node_t *, size_t, size_t); static void vp_sort_pair_uint64_t_uint32_t(struct pair_uint64_t_uint32_t *, struct pair_uint64_t_uint32_t *);", defines=DEF,
        stubs={TN + "TreeNode|void ()": "c_new", WT + "assignPrefixCodes|size_t (": "c_rec"}, unwind=2, flags=UF))
    for nm, ty, sig in (("collect_bytes", "void *", "std::vector<bool> &[256]"), ("collect_integers", "struct map_uint32_t_vec_Bool *", "std::map<unsigned int, std::vector<bool>> &")):
        isarr = nm == "collect_bytes"
        G.append(Group(nm, r"""
static void bv_push(struct vec_Bool *v, _Bool b) { ASSERT(v == &VEC && !open, "one bit at a time"); open = 1; pushed = b; v->n++; }
static void bv_pop(struct vec_Bool *v) { ASSERT(v == &VEC && open, "the bit is taken away again"); open = 0; v->n--; }
static void bv_copy(struct vec_Bool *v, const struct vec_Bool *o) { ASSERT(o == &VEC && !open && o->n == D0 && v == %s && !hl && !hr, "a leaf's symbol gets the path as its code"); ++stored; }
static void c_rec(%s c, struct vec_Bool *v, node_t *n) { ASSERT((void*)c == (void*)CS && v == &VEC && open && v->n == D0 + 1, "one level deeper"); if (n == &LN) { ASSERT(!pushed && hl && !nl, "0 is left"); nl = 1; } else { ASSERT(n == &RN && pushed && hr && !nr, "1 is right"); nr = 1; } }
%s
void harness(void) { D0 = VEC.n = nondet_u64(); ASSUME(D0 < ((uint64_t)1 << 32)); hl = nondet_bool(); hr = nondet_bool(); fresh(&ROOT); ROOT.m_symbol = nondet_u32(); %s open = nl = nr = 0; stored = 0;
  @{""" % ("CS + ROOT.m_symbol" if isarr else "&CELL", ty, "" if isarr else "static struct vec_Bool *map_uint32_t_vec_Bool_at(struct map_uint32_t_vec_Bool *m, uint32_t k) { ASSERT(m == CS && k == ROOT.m_symbol, \"entry of the symbol\"); return &CELL; }", "ASSUME(ROOT.m_symbol < 256);" if isarr else "") + WT + "collectCodes|" + sig + r""", std::vector<bool> &, }((void*)CS, &VEC, &ROOT); REACH("collected"); ASSERT(nl == hl && nr == hr && stored == (!hl && !hr), "every child is visited, leaves are stored"); ASSERT(!open && VEC.n == D0, "the path is restored"); }
""", pre=NODE + ("static struct vec_Bool CS[256];" if isarr else "static struct map_uint32_t_vec_Bool CSM; static struct vec_Bool CELL;\n#define CS (&CSM)\n") + "static struct vec_Bool VEC; static uint64_t D0; static _Bool open, nl, nr; static unsigned stored; static void c_rec(" + ty + ", struct vec_Bool *, node_t *);", defines=DEF,
            stubs={WT + "collectCodes#rec": "c_rec"}, unwind=2, flags=UF))
    SH = NODE + r"""
uint64_t __CPROVER_uninterpreted_pk(uint64_t); uint32_t __CPROVER_uninterpreted_nb(uint64_t); uint8_t __CPROVER_uninterpreted_sym(uint64_t); uint64_t __CPROVER_uninterpreted_len(uint64_t); uint32_t __CPROVER_uninterpreted_int(uint64_t); uint64_t __CPROVER_uninterpreted_ilen(uint64_t);
#define PK(x) __CPROVER_uninterpreted_pk(x)   /* packed form of an integer and its bytes: proved in C06 */
#define NB(x) __CPROVER_uninterpreted_nb(x)
#define SYM(k) __CPROVER_uninterpreted_sym(k) /* k-th symbol, run-length code, their lengths */
#define LEN(k) __CPROVER_uninterpreted_len(k)
#define INT(k) __CPROVER_uninterpreted_int(k)
#define ILEN(k) __CPROVER_uninterpreted_ilen(k)
static struct vec_Bool OUT; static uint64_t ev, un, wb, ML, NS, IML, NI, LI, PX; static uint32_t WS, R, IR, K; static uint8_t back; static _Bool seen, iseen; static struct pair_uint32_t_vec_Bool *MD;
"""
    CB = "!(i > WS) || (symbols.n > R && symbols.d[R] == WS && maxLen >= CO[WS].n)"
    G.append(Group("shape_write", r"""
static void c_push(struct vec_Bool *v, uint64_t x, size_t b) { ASSERT(v == &OUT && b == 8, "one byte"); if (ev == 0) ASSERT(x == back, "largest symbol"); else ASSERT(ev == 1 && (x & 255) == (NS & 255), "number of symbols, 256 as 0"); ++ev; }
static void c_push8(struct vec_Bool *v, uint8_t x, size_t b) { c_push(v, x, b); }
static uint64_t c_pack(uint64_t x, int *b) { PX = x; ASSUME(NB(x) >= 1 && NB(x) <= 8 && (PK(x) == 0) == (x == 0)); *b = NB(x); return PK(x); }
static void c_rev(struct vec_Bool *v, uint64_t x, size_t b) { ASSERT(v == &OUT && x == PK(PX) && b == 8 * (uint64_t)NB(PX), "packed integer, all its bytes"); if (ev == 2) ASSERT(PX == ML, "longest code of a symbol"); else if (ev == 5) ASSERT(PX == LI, "largest run length with a code"); else if (ev == 6) ASSERT(PX == NI, "number of run-length codes"); else ASSERT(ev == 7 && PX == IML, "longest of them"); ++ev; }
static void c_list(struct vec_uint8_t *s, uint64_t m, struct vec_Bool *v) { ASSERT(ev == 3 && m == back && v == &OUT && s->n == NS, "list of symbols"); ASSERT(R < s->n && s->d[R] == WS, "watched symbol is in the list"); ASSERT(K >= s->n || CO[s->d[K]].n > 0, "only used symbols"); ASSERT(K + 1 >= s->n || s->d[K] < s->d[K + 1], "in increasing order"); ++ev; }
static void c_ilist(struct vec_uint32_t *s, uint64_t b, uint64_t e, uint64_t lo, uint64_t hi, struct vec_Bool *v) { ASSERT(ev == 8 && s->n == NI && b == 0 && e == NI - 1 && lo == 0 && hi == LI && v == &OUT, "list of run lengths"); ASSERT(s->d[IR] == MD[IR].first, "watched run length is in the list"); ++ev; }
static void c_unary(struct vec_Bool *v, uint64_t n) { ASSERT(v == &OUT && n >= 1, "unary codes are positive"); if (ev == 4) { if (un == R) { seen = 1; ASSERT(n == ML - CO[WS].n + 1, "watched symbol's length"); } ++un; } else { ASSERT(ev == 9, "lengths follow the list"); if (un == IR) { iseen = 1; ASSERT(n == IML - MD[IR].second.n + 1, "watched run-length code's length"); } ++un; } }
static void bv_push(struct vec_Bool *v, _Bool b) { ASSERT(v == &OUT && ev == (LI ? 9 : 6) && wb < 4 && b == ((TREE.m_W >> (3 - wb)) & 1), "code parameter comes last"); ++wb; }
void harness(void) { __CPROVER_havoc_object(&TREE); WS = nondet_u8(); R = nondet_u32(); K = nondet_u32(); IR = nondet_u32(); ASSUME(R <= WS && K < 256 && CO[WS].n > 0 && CO[WS].n < 64); NI = nondet_u64(); ASSUME(NI >= 1 && NI < ((uint64_t)1 << 31) && IR < NI);
  MD = malloc(NI * sizeof *MD); TREE.m_integerCodes.d = MD; TREE.m_integerCodes.n = NI; vp_uint32_t_store = malloc(NI * 4); LI = MD[NI - 1].first; ASSUME(MD[IR].second.n < 64 && (LI == 0 || MD[IR].second.n > 0)); ev = un = wb = 0; seen = iseen = 0;
  @{""" + WT + r"""treeShape}(&TREE, &OUT); REACH("written"); ASSERT(seen && wb == 4 && ev == (LI ? 9 : 6), "shape is complete"); ASSERT(LI == 0 || (iseen && un == NI), "every run-length code"); }
""", pre=SH + "#define CO TREE.m_codes\nstatic void c_push(struct vec_Bool *, uint64_t, size_t); static void c_push8(struct vec_Bool *, uint8_t, size_t); static uint64_t c_pack(uint64_t, int *); static void c_rev(struct vec_Bool *, uint64_t, size_t); static void c_list(struct vec_uint8_t *, uint64_t, struct vec_Bool *); static void c_ilist(struct vec_uint32_t *, uint64_t, uint64_t, uint64_t, uint64_t, struct vec_Bool *); static void c_unary(struct vec_Bool *, uint64_t);", defines=DEF,
        stubs={"utils::pushBits|(std::vector<bool> &, unsigned long, size_t)": "c_push", "utils::pushBits|(std::vector<bool> &, unsigned char, size_t)": "c_push8", "utils::pushBitsRev": "c_rev", "utils::packInteger": "c_pack", "utils::binaryInterpolativeCode|const std::vector<unsigned char> &, size_t, std::vector<bool> &": "c_list", "utils::binaryInterpolativeCode|const std::vector<unsigned int> &": "c_ilist", "utils::unaryCode": "c_unary"},
        loops={WT + "treeShape": {
            0: dict(inv=["i <= 256 && b == (uint8_t)i && self == &TREE && vec == &OUT && maxLen < 64 && symbols.n <= i", CB],
                    all=[dict(p="{0} >= symbols.n || (symbols.d[{0}] < i && CO[symbols.d[{0}]].n > 0 && CO[symbols.d[{0}]].n <= maxLen)", sk=("K",), at=(("(symbols.n - 1)",),)), dict(p="{0} + 1 >= symbols.n || symbols.d[{0}] < symbols.d[{0} + 1]", sk=("K",), at=(("(symbols.n - 2)",),))],
                    havoc="__CPROVER_havoc_object(&symbols);", body="ASSUME(CO[i].n < 64); /* the watched symbol is the R-th used one */ if (i == WS) ASSUME(symbols.n == R);", dec="256 - i", post="NS = symbols.n; back = *vec_uint8_t_back(&symbols); ML = maxLen;"),
            1: dict(inv=["i <= symbols.n && symbols.n == NS && un == i && ev == 4 && vec == &OUT && self == &TREE && maxLen == ML && (i <= R || seen)"], havoc="un = nondet_u64(); seen = nondet_bool();", body="ASSUME(i == R ? symbols.d[i] == WS : 1); ASSUME(CO[symbols.d[i]].n <= ML);", dec="symbols.n - i"),
            2: dict(inv=["self == &TREE && vec == &OUT && ev == 5 && integers.n <= NI && it == MD + integers.n && maxLen < 64 && integers.d == vp_uint32_t_store", "integers.n <= IR || (integers.d[IR] == MD[IR].first && maxLen >= MD[IR].second.n)", "integers.n < NI || integers.d[NI - 1] == MD[NI - 1].first"],
                    pre="ASSERT(ev == 4 && un == NS, \"every symbol has its length\"); ev = 5; un = 0;", havoc="integers.n = nondet_u64(); integers.d = vp_uint32_t_store; __CPROVER_havoc_object(integers.d); it = MD + integers.n;", body="ASSUME(MD[integers.n].second.n < 64);", dec="NI - integers.n", post="IML = maxLen;", frame=["integers"]),
            3: dict(inv=["self == &TREE && vec == &OUT && ev == 9 && un <= NI && it == MD + un && maxLen == IML && (un <= IR || iseen)"], havoc="un = nondet_u64(); iseen = nondet_bool(); it = MD + un;", body="ASSUME(MD[un].second.n > 0 && MD[un].second.n <= IML);", dec="NI - un"),
            4: dict(inv=["self == &TREE && vec == &OUT && i >= -1 && i <= 3 && wb == 3 - i"], havoc="wb = nondet_u64();", dec="i + 1")}}, unwind=3, flags=UF, checks=False))
    RDECL = "static uint8_t c_byte(void *); static _Bool c_bit(void *); static uint64_t c_unpack(void *, size_t *); static uint64_t c_list(struct vec_uint8_t *, void *, size_t, size_t); static uint64_t c_ilist(struct vec_uint32_t *, void *, size_t, size_t, size_t); static uint64_t c_unary(void *); static void c_assign(tree_t *, struct vec_pair_uint64_t_uint32_t *); static uint64_t c_iassign(struct vec_pair_uint64_t_uint32_t *, node_t *, size_t, size_t); static void c_collect(void *, node_t *); static void c_icollect(void *, node_t *); static void c_new(node_t *); static void c_leaf(node_t *, uint32_t); static void vp_sort_pair_uint64_t_uint32_t(struct pair_uint64_t_uint32_t *, struct pair_uint64_t_uint32_t *); static uint32_t MW; static _Bool sorted, forced, leaf0; static unsigned as, co, ias, ico; static struct pair_uint64_t_uint32_t *PD;\n"
    G.append(Group("shape_read", r"""
static uint8_t c_byte(void *in) { ++ev; ASSERT(ev <= 2, "two header bytes"); return ev == 1 ? back : (uint8_t)NS; }
static uint64_t c_unpack(void *in, size_t *b) { uint64_t r; if (ev == 2) r = ML; else if (ev == 5) r = LI; else if (ev == 6) r = NI; else { ASSERT(ev == 7, "integers in the order written"); r = IML; } ++ev; *b = NB(r); ASSUME(NB(r) <= 8); return r; }
static uint64_t c_list(struct vec_uint8_t *a, void *in, size_t m, size_t n) { ASSERT(ev == 3 && m == back && n == NS && a->n == 0, "list of symbols"); ++ev; __CPROVER_havoc_object(a); a->n = NS; ASSUME(a->d[R] == SYM(R)); return nondet_u64(); }
static uint64_t c_ilist(struct vec_uint32_t *a, void *in, size_t lo, size_t hi, size_t n) { ASSERT(ev == 8 && lo == 0 && hi == LI && n == NI && a->n == 0, "list of run lengths"); ++ev; a->n = NI; ASSUME(a->d[IR] == INT(IR)); un = 0; return nondet_u64(); }
static uint64_t c_unary(void *in) { if (ev == 4) { ASSERT(un < NS, "one length per symbol"); return ML - LEN(un++) + 1; } ASSERT(ev == 9 && un < NI, "one length per run-length code"); return IML - ILEN(un++) + 1; }
static void c_assign(tree_t *t, struct vec_pair_uint64_t_uint32_t *l) { ASSERT(t == &TREE && ev == 4 && un == NS && l->n == NS, "all symbols read"); ASSERT(l->d[R].first == LEN(R) && l->d[R].second == SYM(R), "watched symbol has its length"); ++as; ev = 5; t->m_root = &RN; }
static void c_collect(void *c, node_t *n) { ASSERT(as == 1 && co == 0 && c == (void*)TREE.m_codes && n == &RN, "codes of the new tree"); ++co; }
static void vp_sort_pair_uint64_t_uint32_t(struct pair_uint64_t_uint32_t *b, struct pair_uint64_t_uint32_t *e) { ASSERT(e - b == NI && un == NI && ev == 9, "all run-length codes read"); ASSERT(b[IR].first == ILEN(IR) && b[IR].second == INT(IR), "watched run length has its code length"); PD = b; sorted = 1; }
static uint64_t c_iassign(struct vec_pair_uint64_t_uint32_t *l, node_t *n, size_t e, size_t b) { ASSERT(sorted && l->d == PD && l->n == NI && n == TREE.m_integerCodeTree && n != 0 && e == 0 && b == 0 && ias == 0, "codes of the run lengths start at a new root"); ++ias; return NI; }
static void c_icollect(void *c, node_t *n) { ASSERT(ias == 1 && ico == 0 && c == (void*)&TREE.m_integerCodes && n == TREE.m_integerCodeTree, "codes of the run lengths"); ++ico; }
static void c_new(node_t *n) { n->m_left = n->m_right = 0; n->m_hasSymbol = 0; }
static void c_leaf(node_t *n, uint32_t s) { ASSERT(s == 0, "only the escape code"); c_new(n); n->m_hasSymbol = 1; n->m_symbol = s; leaf0 = 1; }
static struct vec_Bool CELL; static struct vec_Bool *map_uint32_t_vec_Bool_at(struct map_uint32_t_vec_Bool *m, uint32_t k) { ASSERT(m == &TREE.m_integerCodes && k == 0, "escape code"); forced = 1; return &CELL; }
static _Bool c_bit(void *in) { ASSERT(wb < 4 && ev == (LI ? 9 : 6) && co == 1, "code parameter comes last"); return (MW >> (3 - wb++)) & 1; }
void harness(void) { __CPROVER_havoc_object(&TREE); TREE.m_root = &ROOT; ROOT.m_left = ROOT.m_right = 0; NS = nondet_u64(); NI = nondet_u64(); LI = nondet_u64(); ML = nondet_u64(); IML = nondet_u64(); R = nondet_u32(); IR = nondet_u32(); MW = nondet_u32(); back = nondet_u8(); ASSUME(NS >= 1 && NS <= 256 && R < NS && NI >= 1 && NI < ((uint64_t)1 << 31) && IR < NI && ML < 64 && IML < 64 && MW < 16);
  ev = un = wb = 0; as = co = ias = ico = 0; sorted = forced = leaf0 = 0; vp_uint32_t_store = malloc(NI * 4); vp_pair_uint64_t_uint32_t_store = malloc((NI + 256) * sizeof *PD);
  @{""" + WT + r"""readShape}(&TREE, (void*)0); REACH("read"); ASSERT(as == 1 && co == 1 && wb == 4 && TREE.m_W == MW, "symbols and code parameter restored"); ASSERT(LI ? ias == 1 && ico == 1 && !leaf0 : ias == 0 && ico == 0 && leaf0 && forced && TREE.m_integerCodeTree->m_hasSymbol && TREE.m_integerCodeTree->m_symbol == 0, "run-length codes restored"); }
""", pre=SH + RDECL, defines=DEF,
        stubs={"bwtc::InStream::readByte": "c_byte", "bwtc::InStream::readBit": "c_bit", "utils::readPackedIntegerRev": "c_unpack", "utils::binaryInterpolativeDecode|size_t (std::vector<unsigned char> &, bwtc::InStream &, size_t, size_t)": "c_list", "utils::binaryInterpolativeDecode|size_t (std::vector<unsigned int> &": "c_ilist", "utils::unaryDecode": "c_unary",
               WT + "assignPrefixCodes|void (": "c_assign", WT + "assignPrefixCodes|size_t (": "c_iassign", WT + "collectCodes|std::vector<bool> &[256], TreeNode": "c_collect", WT + "collectCodes|std::map<unsigned int, std::vector<bool>> &, TreeNode": "c_icollect", TN + "TreeNode|void ()": "c_new", TN + "TreeNode|void (uint32)": "c_leaf"},
        loops={WT + "readShape": {
            0: dict(inv=["self == &TREE && i <= symbols && symbols == NS && un == i && ev == 4 && maxLengthOfCode == ML && alphabet.n == NS && codeLengths.n == i && codeLengths.d == vp_pair_uint64_t_uint32_t_store", "i <= R || (codeLengths.d[R].first == LEN(R) && codeLengths.d[R].second == SYM(R))"], havoc="codeLengths.n = nondet_u64(); codeLengths.d = vp_pair_uint64_t_uint32_t_store; __CPROVER_havoc_object(codeLengths.d); un = nondet_u64();",
                    body="ASSUME(*vec_uint8_t_at(&alphabet, i) == SYM(i) && LEN(i) > 0 && LEN(i) <= ML);", dec="symbols - i", frame=["codeLengths"]),
            1: dict(inv=["self == &TREE && i <= symbols && symbols == NI && un == i && ev == 9 && maxLengthOfCode == IML && integers.n == NI && integerCodeLengths.n == i && integers.d == vp_uint32_t_store && integerCodeLengths.d == vp_pair_uint64_t_uint32_t_store", "i <= IR || (integerCodeLengths.d[IR].first == ILEN(IR) && integerCodeLengths.d[IR].second == INT(IR))"], havoc="integerCodeLengths.n = nondet_u64(); integerCodeLengths.d = vp_pair_uint64_t_uint32_t_store; __CPROVER_havoc_object(integerCodeLengths.d); un = nondet_u64();",
                    body="ASSUME(integers.d[i] == INT(i) && ILEN(i) > 0 && ILEN(i) <= IML);", dec="symbols - i", frame=["integerCodeLengths"])}}, unwind=6, flags=UF, checks=False))
    G.append(Group("push_run", r"""
static node_t *c_code(tree_t *t, struct vec_Bool *b) { ASSERT(t == &TREE && b == TREE.m_codes + WS && ev == 0, "code of the symbol from the root"); ev = 1; LN.m_hasSymbol = 1; return &LN; }
static struct pair_uint32_t_vec_Bool *map_uint32_t_vec_Bool_find(const struct map_uint32_t_vec_Bool *m, uint32_t k) { ASSERT(m == &TREE.m_integerCodes && k == RUN, "is there a code for this run length"); return m->d + (has ? IR : NI); }
static struct vec_Bool *map_uint32_t_vec_Bool_at(struct map_uint32_t_vec_Bool *m, uint32_t k) { ASSERT(m == &TREE.m_integerCodes && (k == RUN ? has : k == 0), "existing code, or the escape code"); return k == RUN ? &MD[IR].second : &ESC; }
static void bv_copy(struct vec_Bool *v, const struct vec_Bool *o) { ASSERT(o == &ESC && !has && ev == 1, "escape code first"); v->n = o->n; TMP = v; ev = 2; }
static void c_fixed(struct vec_Bool *v, uint32_t x, uint32_t w) { ASSERT(ev == 2 && v == TMP && x == RUN && w == TREE.m_W, "then the number"); ev = 3; v->n = v->n + 1; }
static void c_int(node_t *n, struct vec_Bool *b, uint32_t s) { ASSERT(n == &LN && s == RUN && ev == (has ? 1 : 3) && b == (has ? &MD[IR].second : TMP), "code of the run length below the symbol's leaf"); ev = 4; }
void harness(void) { __CPROVER_havoc_object(&TREE); WS = nondet_u8(); uint64_t l = nondet_u64(); ASSUME(l >= 1 && l <= 0xffffffffu); RUN = l; has = nondet_bool(); NI = nondet_u64(); ASSUME(NI >= 1 && NI < ((uint64_t)1 << 31)); IR = nondet_u32(); ASSUME(IR < NI); MD = malloc(NI * sizeof *MD); TREE.m_integerCodes.d = MD; TREE.m_integerCodes.n = NI; ESC.n = nondet_u64(); ASSUME(ESC.n < 64); ev = 0;
  @{""" + WT + r"""pushRun}(&TREE, (uint8_t)WS, l); REACH("run"); ASSERT(ev == 4, "symbol and run length pushed"); }
""", pre=SH + "static _Bool has; static struct vec_Bool ESC, *TMP; static node_t *c_code(tree_t *, struct vec_Bool *); static void c_fixed(struct vec_Bool *, uint32_t, uint32_t); static void c_int(node_t *, struct vec_Bool *, uint32_t);", defines=DEF,
        stubs={PB: "c_code", WT + "pushBits|, uint32)": "c_int", WT + "fixedIntegerCode|void (": "c_fixed"}, unwind=2, flags=UF))
    BF = DEF + r"""
#define VP_QUEUE_STRUCT(N, T) struct queue_##N { size_t n; }; static void queue_##N##_push(struct queue_##N *q, T v); static T *queue_##N##_front(struct queue_##N *q); static void queue_##N##_pop(struct queue_##N *q); static inline _Bool queue_##N##_empty(struct queue_##N *q) { return q->n == 0; } static inline void queue_##N##_ctor(struct queue_##N *q) { q->n = 0; }
#define VP_LIST_STRUCT(N, T) struct list_##N { size_t n; }; static void list_##N##_push_back(struct list_##N *q, T v); static T *list_##N##_front(struct list_##N *q); static void list_##N##_pop_front(struct list_##N *q); static inline _Bool list_##N##_empty(struct list_##N *q) { return q->n == 0; } static inline void list_##N##_ctor(struct list_##N *q) { q->n = 0; } \
static void list_##N##_splice(struct list_##N *q, struct list_##N *o) { if (o == (void*)SL) { ASSERT(!spl, "left children first"); spl = 1; } else { ASSERT(o == (void*)SR && spl == 1, "then right children"); spl = 2; } q->n += o->n; o->n = 0; }
static void *SL, *SR; static unsigned spl;
"""
    BP = NODE + r"""
typedef struct pair_TreeNode_std_vector_bool_vec_Bool item_t; typedef struct queue_pair_TreeNode_std_vector_bool_vec_Bool queue_t;
uint8_t __CPROVER_uninterpreted_gap(uint64_t); uint64_t __CPROVER_uninterpreted_cnt(uint64_t);
#define GAP(k) ((_Bool)(__CPROVER_uninterpreted_gap(k) & 1))   /* k-th gap mark of the node, bits are BIT(k) */
#define CNT(k) __CPROVER_uninterpreted_cnt(k)                  /* ones among the first k bits */
#define PREV(k) ((k) ? BIT((k) - 1) : !BIT(0))
static struct ProbabilityModel *PM, *GM, *GP; static struct vec_Bool *VL, *VR, *NB; static item_t FRONT; static node_t NODE1; static uint64_t CUR, NN; static unsigned KIND, mod, did_p, did_c, did_u, did_s, npush, nbits, qn, ln, pops, rp, rg, rm; 
enum { ROOTK, BOTH, LEFT, NONE, INTS };
static unsigned id(const void *m) { return m == PM ? 2 : m == GP ? 1 : 3; }
/* which model codes bit k: the gap model after a gap, the node's own otherwise, none where the bit is known */
static unsigned model(uint64_t k) { return KIND == ROOTK ? 2 : KIND == INTS ? 3 : GAP(k) ? 1 : KIND == BOTH ? 0 : KIND == LEFT ? (PREV(k) ? 2 : 0) : 2; }
static uint16_t c_prob(void *m) { ASSERT(!did_p, "one probability per bit"); did_p = 1; mod = id(m); return 100 + mod; }
static void coded(uint16_t p) { ASSERT(did_p && !did_c && !did_u && !did_s && p == 100 + mod, "coded with the model's probability before any update"); did_c = 1; }
static void c_update(void *m, _Bool b) { ASSERT(did_c && !did_u && id(m) == mod && b == BIT(CUR), "the model learns the bit"); did_u = 1; }
static void c_state(void *m, _Bool b) { ASSERT(did_c && !did_s && m == PM && b == BIT(CUR), "the node's model follows"); did_s = 1; }
static void c_reset(void *m) { if (id(m) == 1) rg = 1; else if (id(m) == 2) rp = 1; else rm = 1; }
static void next(uint64_t i) { CUR = i; did_p = did_c = did_u = did_s = 0; mod = npush = nbits = 0; ASSUME(CNT(0) == 0 && CNT(i + 1) == CNT(i) + BIT(i) && CNT(i) <= i); }
static void coding(void) { unsigned m = model(CUR); ASSERT(did_p ? mod == m : m == 0, "model of this bit"); ASSERT(did_c == (m != 0) && did_u == (m != 0), "coded and learnt once"); ASSERT(did_s == (m == 1 && KIND != BOTH), "state follows after a gap"); ASSERT(npush == (KIND == BOTH || KIND == INTS || (KIND == LEFT && !BIT(CUR)) ? 0 : 1), "one gap mark for the child"); }
static void mark(struct vec_Bool *v, _Bool b) { ASSERT(v == VL || v == VR, "gap mark for a child"); ASSERT((v == VR) == BIT(CUR), "of the child the bit goes to"); ASSERT(b == (PREV(CUR) != BIT(CUR) || (KIND != ROOTK && GAP(CUR))), "set after a gap"); ASSERT(v->n > 0 || b, "first mark is set"); v->n++; ++npush; }
static item_t *queue_pair_TreeNode_std_vector_bool_vec_Bool_front(queue_t *q) { ASSERT(q->n > 0, "front of an empty queue"); return &FRONT; }
static void queue_pair_TreeNode_std_vector_bool_vec_Bool_pop(queue_t *q) { ASSERT(q->n > 0, "pop of an empty queue"); q->n--; ++pops; }
static void queue_pair_TreeNode_std_vector_bool_vec_Bool_push(queue_t *q, item_t v) { q->n++; ++qn; ASSUME(CNT(NN) <= NN); if (v.first == &LN) { ASSERT(KIND != LEFT && qn == 1 && v.second.n == NN - CNT(NN), "left child with its marks, first"); ASSERT(!LN.m_hasSymbol, "inner node"); } else { ASSERT(v.first == &RN && v.second.n == CNT(NN) && !RN.m_hasSymbol && (LN.m_hasSymbol ? qn == 1 : qn == 2), "then the right child"); } }
static void node(void) { NN = nondet_u64(); ASSUME(NN >= 1 && NN < ((uint64_t)1 << 40)); LN.m_hasSymbol = nondet_bool(); RN.m_hasSymbol = nondet_bool(); ASSUME(!RN.m_hasSymbol || LN.m_hasSymbol); /* longest codes are to the right */ hl = hr = 1; NODE1.m_hasSymbol = 0; fresh(&NODE1); FRONT.first = &NODE1; FRONT.second.n = NN; qn = ln = pops = rp = rg = 0; KIND = RN.m_hasSymbol ? BOTH : LN.m_hasSymbol ? LEFT : NONE; ASSUME(GAP(0)); next(0); }
static void done(void) { ASSERT(pops == 1 && rp && rg, "node taken, models reset"); ASSERT(KIND == BOTH ? qn == 0 && ln == 2 : KIND == LEFT ? qn == 1 && ln == 1 : qn == 2 && ln == 0, "both children go on"); }
/* consecutive runs have different symbols: without a gap, a symbol node on the left is not taken twice, nor one on the right */
static void runs(uint64_t i) { if (i > 0 && !GAP(i) && KIND != NONE && !BIT(i - 1)) ASSUME(BIT(i)); if (i > 0 && !GAP(i) && KIND == BOTH && BIT(i - 1)) ASSUME(!BIT(i)); }
"""
    DC = "static void c_encode(void *, _Bool, uint16_t); static _Bool c_decode(void *, uint16_t); static uint16_t c_prob(void *); static void c_update(void *, _Bool); static void c_state(void *, _Bool); static void c_reset(void *); static void c_new(struct TreeNode_std_vector_bool *);"
    STB = {"dcsbwt::BitEncoder::encode": "c_encode", "dcsbwt::BitDecoder::decode": "c_decode", "bwtc::ProbabilityModel::probabilityOfOne": "c_prob", "bwtc::ProbabilityModel::update": "c_update", "bwtc::ProbabilityModel::updateState": "c_state", "bwtc::ProbabilityModel::resetModel": "c_reset"}
    LV = lambda l, r: "VL = &%s; VR = &%s;" % (l, r)
    MK = ["(%(r)s).n > 0 || i == 0 || !BIT(i - 1)", "(%(l)s).n > 0 || i == 0 || BIT(i - 1)"]
    def wl(size, l, r, what, extra=(), nobit=False):   # one pass over the bits of a node
        inv = ["i <= %s && %s == NN && NN < ((uint64_t)1 << 40) && self == &TREE && CNT(i) <= i" % (size, size)] + list(extra)
        hv = "npush = nondet_u32(); nbits = nondet_u32(); "
        if what in ("ROOTK", "NONE"):
            inv += ["VL == &%s && VR == &%s && %s.n == i - CNT(i) && %s.n == CNT(i)" % (l, r, l, r)] + [m % dict(l=l, r=r) for m in MK]; hv += "%s.n = nondet_u64(); %s.n = nondet_u64();" % (l, r)
        if what == "LEFT": inv += ["VR == &%s && %s.n == CNT(i)" % (r, r), MK[0] % dict(r=r)]; hv += "%s.n = nondet_u64();" % r
        return dict(inv=inv, havoc=hv, dec=size + " - i")
    enc = {}
    for k, what, size in ((0, "ROOTK", "self->m_root->m_bitVector.n"), (2, "BOTH", "node->first->m_bitVector.n"), (3, "LEFT", "node->first->m_bitVector.n"), (4, "NONE", "node->first->m_bitVector.n")):
        d = wl(size, "left.second", "right.second", what, ["KIND == " + what] + ([] if what == "BOTH" else ["%sprev == PREV(i)" % ("" if what == "ROOTK" else "i == 0 || ")]) + ([] if what == "ROOTK" else ["node == &FRONT"]))
        d.update(pre=("KIND = ROOTK; NN = %s; NB = &ROOT.m_bitVector; next(0);" % size if k == 0 else 'ASSERT(KIND == %s && rp && rg, "models reset before the node");' % what) + LV("left.second", "right.second"), body="next(i);", end="coding(); next(i);", frame=["bv"])
        enc[k] = d
    enc[1] = dict(inv=["self == &TREE", "queue.n < ((uint64_t)1 << 40)"], pre='ASSERT(LN.m_hasSymbol ? ln >= 1 : qn >= 1, "left child of the root goes on"); ASSERT(qn + ln == 1 + hr, "children of the root go on");', havoc="queue.n = nondet_u64(); integerCodeNodes.n = nondet_u64(); ASSUME(integerCodeNodes.n < ((uint64_t)1 << 40));", body="node(); NODE1.m_bitVector.n = NN; NB = &NODE1.m_bitVector; ASSUME(queue.n > 0);", end="done(); if (queue.n >= ((uint64_t)1 << 40)) ASSUME(0);", frame=["left", "right", "first"])
    enc[5] = dict(inv=["self == &TREE && SL == (void*)&left && SR == (void*)&right", "integerCodeNodes.n == 0 || (left.n == 0 && right.n == 0)"], pre="SL = &left; SR = &right; KIND = INTS;", havoc="integerCodeNodes.n = nondet_u64(); left.n = nondet_u64(); right.n = nondet_u64();", body="ASSUME(integerCodeNodes.n < ((uint64_t)1 << 40) && left.n < ((uint64_t)1 << 40) && right.n < ((uint64_t)1 << 40)); spl = 0; rm = 0; KIND = INTS;", end='ASSERT(spl == 2 && rm, "next level is lined up, model reset");')
    enc[6] = dict(inv=["self == &TREE && KIND == INTS && SL == (void*)&left && SR == (void*)&right && spl == 2 && rm == 1"], havoc="integerCodeNodes.n = nondet_u64(); left.n = nondet_u64(); right.n = nondet_u64();", body="NN = nondet_u64(); ASSUME(NN < ((uint64_t)1 << 40)); hl = nondet_bool(); hr = nondet_bool(); LN.m_hasSymbol = nondet_bool(); RN.m_hasSymbol = nondet_bool(); fresh(&NODE1); NODE1.m_bitVector.n = NN; NB = &NODE1.m_bitVector; ln = pops = 0; gl = gr = 0;",
                  end='ASSERT(pops == 1, "node taken"); ASSERT(gl == (hl && (!LN.m_hasSymbol || LN.m_symbol == 0)) && gr == (hr && (!RN.m_hasSymbol || RN.m_symbol == 0)), "children with bits go on");')
    enc[7] = dict(wl("node->m_bitVector.n", "", "", "INTS", ["node == &NODE1 && KIND == INTS"]), body="next(i);", end="coding(); next(i);", pre="next(0);")
    G.append(Group("bits_write", r"""
static node_t *LCELL; typedef struct list_TreeNode_std_vector_bool list_t;
static void c_encode(void *e, _Bool b, uint16_t p) { coded(p); ASSERT(b == BIT(CUR), "the node's bit"); }
static _Bool *bv_at(const struct vec_Bool *v, size_t i) { ASSERT(i < v->n, "bit vector index in bounds"); if (v == &FRONT.second) tmpb = GAP(i); else { ASSERT(v == NB, "bits of the node"); tmpb = BIT(i); } return &tmpb; }
static void bv_push(struct vec_Bool *v, _Bool b) { mark(v, b); }
static void list_TreeNode_std_vector_bool_push_back(list_t *l, node_t *n) { l->n++; if (KIND == INTS) { if (n == &LN) { ASSERT((void*)l == SL && !gl, "left child once"); gl = 1; } else { ASSERT(n == &RN && (void*)l == SR && !gr, "right child once"); gr = 1; } return; } ++ln; ASSERT(n->m_hasSymbol && (n == &LN ? ln == 1 : n == &RN && ln == 2 && LN.m_hasSymbol || KIND == ROOTK && n == &RN), "symbol nodes from left to right"); }
static node_t **list_TreeNode_std_vector_bool_front(list_t *l) { LCELL = &NODE1; return &LCELL; }
static void list_TreeNode_std_vector_bool_pop_front(list_t *l) { ASSERT(l->n > 0, "pop of an empty list"); l->n--; ++pops; }
void harness(void) { PM = malloc(sizeof *PM); GM = malloc(sizeof *GM); GP = malloc(sizeof *GP); TREE.m_root = &ROOT; hl = 1; hr = nondet_bool(); fresh(&ROOT); ROOT.m_bitVector.n = nondet_u64(); ASSUME(ROOT.m_bitVector.n >= 1 && ROOT.m_bitVector.n < ((uint64_t)1 << 40)); LN.m_hasSymbol = nondet_bool(); RN.m_hasSymbol = nondet_bool(); ASSUME(!hr || !RN.m_hasSymbol || LN.m_hasSymbol); NN = ROOT.m_bitVector.n; NB = &ROOT.m_bitVector; KIND = ROOTK; qn = ln = 0;
  @{""" + WT + r"""encodeTreeBF}(&TREE, (void*)0, PM, GM, GP); REACH("written"); }
""", pre=BP + DC + "static _Bool gl, gr;", defines=BF, stubs=STB, loops={WT + "encodeTreeBF": enc}, unwind=2, flags=UF, checks=False))
    dec = {}
    for k, what, size in ((0, "ROOTK", "rootSize"), (2, "BOTH", "node->second.n"), (3, "LEFT", "node->second.n"), (4, "NONE", "node->second.n")):
        d = wl(size, "left", "right", what, ["KIND == " + what, "%sprev == PREV(i)" % ("" if what == "ROOTK" else "i == 0 || "), "NB->n == i"] + (["i >= 1", "NB == &ROOT.m_bitVector"] if what == "ROOTK" else ["node == &FRONT", "NB == &NODE1.m_bitVector"]) + (["ones == CNT(i)"] if what == "BOTH" else []))
        d["havoc"] += " NB->n = nondet_u64();"
        d.update(pre=('coding(); ASSERT(nbits == 1, "first bit stored"); ASSERT((BIT(0) ? right.n == 1 && left.n == 0 : left.n == 1 && right.n == 0), "first gap mark is set"); ASSUME(CNT(1) == BIT(0) && CNT(0) == 0); next(1);' if k == 0 else 'ASSERT(KIND == %s && rp && rg, "models reset before the node"); next(0);' % what) + LV("left", "right"), body="next(i); runs(i);", end='coding(); ASSERT(nbits == 1, "bit stored"); next(i);', frame=["gVector", "gapVector"])
        dec[k] = d
    dec[0]["post"] = "ASSUME((CNT(NN) > 0) == hr); /* the right half of the root exists when it is used */"
    dec[1] = dict(enc[1], body="node(); NODE1.m_bitVector.n = 0; NB = &NODE1.m_bitVector; ASSUME(queue.n > 0);")
    dec[5] = dict(inv=["self == &TREE && SL == (void*)&left && SR == (void*)&right", "left.n == 0 && right.n == 0"], pre="SL = &left; SR = &right; KIND = INTS;", havoc="integerCodeNodes.n = nondet_u64(); left.n = nondet_u64(); right.n = nondet_u64();", body="spl = 0; rm = 0; KIND = INTS;", end='ASSERT(spl == 2 && rm, "next level is lined up, model reset");')
    dec[6] = dict(inv=["self == &TREE && KIND == INTS && SL == (void*)&left && SR == (void*)&right && spl == 0 && rm == 1"], havoc="integerCodeNodes.n = nondet_u64(); left.n = nondet_u64(); right.n = nondet_u64();", body="inode();", end="istep();", frame=["m_left", "m_right", "m_hasSymbol", "m_symbol", "m_codeStatus", "m_leadingOnes"])
    dec[5]["frame"] = dec[6]["frame"]
    dec[7] = dict(wl("node.m_bits", "", "", "INTS", ["node.m_node == &NODE1 && KIND == INTS && ones == CNT(i) && NB == &NODE1.m_bitVector && NB->n == i"]), body="next(i);", end='coding(); ASSERT(nbits == 1, "bit stored"); next(i);', pre="next(0); walked = 1;")
    dec[7]["havoc"] += " NB->n = nondet_u64();"
    G.append(Group("bits_read", r"""
typedef struct list_IntegerNode_std_vector_bool list_t; typedef struct IntegerNode_std_vector_bool inode_t;
static inode_t ICELL; static node_t ITREE, INL, INR; static _Bool il, ir, tree, fixed; static uint32_t S0, K0, YS; static _Bool YH;
static _Bool c_decode(void *e, uint16_t p) { coded(p); return BIT(CUR); }
static void c_new(node_t *n) { n->m_left = n->m_right = 0; n->m_hasSymbol = 0; n->m_bitVector.n = 0; }
static _Bool *bv_at(const struct vec_Bool *v, size_t i) { ASSERT(i < v->n && v == &FRONT.second, "gap mark of the node"); tmpb = GAP(i); return &tmpb; }
static void bv_push(struct vec_Bool *v, _Bool b) { if (v == NB) { ASSERT(b == BIT(CUR), "the bit coded is stored"); ++nbits; v->n++; } else mark2(v, b); }
static void child(inode_t n, _Bool one) { ASSERT(n.m_node == (one ? NODE1.m_right : NODE1.m_left) && n.m_node != 0, "child of the node"); ASSERT((one ? hr : hl) ? n.m_node == (one ? &RN : &LN) : !n.m_node->m_hasSymbol && !n.m_node->m_left && !n.m_node->m_right, "kept or made"); ASSERT(n.m_bits == (one ? CNT(NN) : NN - CNT(NN)) && n.m_bits > 0, "as many bits as go there");
  if (tree) ASSERT(n.m_intNode == (one ? &INR : &INL) && n.m_codeStatus == 0 && n.m_leadingOnes == 0, "one step down the code tree");
  else { ASSERT(n.m_intNode == 0, "below the code tree"); uint32_t s = S0 == 2 ? 2 : one ? 1 : 2, k = S0 == 2 ? K0 - 1 : one ? K0 + 1 : K0 + TREE.m_W; ASSERT(n.m_codeStatus == s && n.m_leadingOnes == k, "place in the fixed code"); ASSERT(s != 2 || k > 0, "codes end at their last bit"); } }
static _Bool goes(_Bool one) { if (!(one ? CNT(NN) > 0 : NN > CNT(NN))) return 0; return tree || !(S0 == 2 ? K0 == 1 : !one && K0 + TREE.m_W == 0); }
static void list_IntegerNode_std_vector_bool_push_back(list_t *l, inode_t n) { l->n++; if (KIND == INTS) { if ((void*)l == SL) { ASSERT(!gl, "left child once"); gl = 1; child(n, 0); } else { ASSERT((void*)l == SR && !gr, "right child once"); gr = 1; child(n, 1); } return; }
  ++ln; ASSERT(n.m_node->m_hasSymbol && (n.m_node == &LN ? ln == 1 : n.m_node == &RN && (ln == 2 || !LN.m_hasSymbol)), "symbol nodes from left to right"); ASSUME(CNT(NN) <= NN); ASSERT(n.m_bits == (n.m_node == &LN ? NN - CNT(NN) : CNT(NN)), "as many run lengths as the symbol has runs"); ASSERT(n.m_intNode == TREE.m_integerCodeTree && n.m_leadingOnes == 0 && n.m_codeStatus == 0, "codes start at the root"); }
static inode_t *list_IntegerNode_std_vector_bool_front(list_t *l) { return &ICELL; }
static void list_IntegerNode_std_vector_bool_pop_front(list_t *l) { ASSERT(l->n > 0, "pop of an empty list"); l->n--; ++pops; }
static void inode(void) { NN = nondet_u64(); ASSUME(NN >= 1 && NN < ((uint64_t)1 << 40)); hl = nondet_bool(); hr = nondet_bool(); fresh(&NODE1); NODE1.m_bitVector.n = 0; NODE1.m_hasSymbol = YH = nondet_bool(); NODE1.m_symbol = YS = nondet_u32(); NB = &NODE1.m_bitVector; ASSUME(CNT(NN) <= NN);
  il = nondet_bool(); ir = nondet_bool(); ITREE.m_hasSymbol = nondet_bool(); if (ITREE.m_hasSymbol) il = ir = 0; ITREE.m_left = il ? &INL : 0; ITREE.m_right = ir ? &INR : 0; ITREE.m_symbol = nondet_u32(); ICELL.m_node = &NODE1; ICELL.m_intNode = nondet_bool() ? &ITREE : 0; ICELL.m_bits = NN; ICELL.m_codeStatus = S0 = nondet_u8(); ICELL.m_leadingOnes = K0 = nondet_u32();
  tree = ICELL.m_intNode && !ITREE.m_hasSymbol; fixed = !tree; ASSUME(S0 <= 2 && K0 < 64 && TREE.m_W < 16 && (!ICELL.m_intNode || S0 == 0) && (S0 != 0 || K0 == 0) && (S0 == 0 || K0 > 0)); /* codes stay inside the code tree */ if (tree) ASSUME((il || CNT(NN) == NN) && (ir || CNT(NN) == 0)); ln = pops = 0; gl = gr = walked = 0; }
static void istep(void) { ASSERT(pops == 1, "node taken"); _Bool end = ICELL.m_intNode && ITREE.m_hasSymbol && ITREE.m_symbol != 0; ASSERT(walked == !end && NODE1.m_bitVector.n == (end ? 0 : NN), "bits are read where the code goes on"); ASSERT(gl == (!end && goes(0)) && gr == (!end && goes(1)), "children with bits go on");
  if (ICELL.m_intNode && ITREE.m_hasSymbol) ASSERT(NODE1.m_hasSymbol && NODE1.m_symbol == (TREE.m_integerCodes.n > 1 ? ITREE.m_symbol : YS), "the run length is stored in its leaf"); else ASSERT(NODE1.m_hasSymbol == YH && NODE1.m_symbol == YS, "other nodes keep their symbol"); }
void harness(void) { PM = malloc(sizeof *PM); GM = malloc(sizeof *GM); GP = malloc(sizeof *GP); TREE.m_root = &ROOT; TREE.m_W = nondet_u32(); ASSUME(TREE.m_W < 16); TREE.m_integerCodes.n = nondet_u64(); TREE.m_integerCodeTree = &ITREE; hl = 1; hr = nondet_bool(); fresh(&ROOT); ROOT.m_bitVector.n = 0; NN = nondet_u64(); ASSUME(NN >= 1 && NN < ((uint64_t)1 << 40)); LN.m_hasSymbol = nondet_bool(); RN.m_hasSymbol = nondet_bool(); ASSUME(!hr || !RN.m_hasSymbol || LN.m_hasSymbol); NB = &ROOT.m_bitVector; KIND = ROOTK; qn = ln = 0; VL = VR = 0; next(0);
  @{""" + WT + r"""decodeTreeBF}(&TREE, NN, (void*)0, PM, GM, GP); REACH("read"); }
""", pre=BP + DC + "static _Bool gl, gr, walked; static void inode(void); static void istep(void); static void mark2(struct vec_Bool *v, _Bool b) { if (VL) mark(v, b); else { ASSERT(b && KIND == ROOTK, \"first mark is set\"); v->n++; ++npush; } }", defines=BF, stubs=dict(STB, **{TN + "TreeNode|void ()": "c_new"}), loops={WT + "decodeTreeBF": dec}, unwind=2, flags=UF, checks=False))
    MS = {
        0: dict(inv=["self == &TREE && j <= msgSize && msgSize == NODE1.m_bitVector.n && len == OP && OP <= N && out == BUF + OP"], pre="OP = 0; NODE1.m_bitVector.n = msgSize;", havoc="OP = nondet_u64(); out = BUF + OP; __CPROVER_havoc_object(BUF); NODE1.m_bitVector.n = msgSize;", body="RS = 0; T2 = fx = 0; VAL = 0;", frame=["bitsSeen", "out"], dec="msgSize - j"),
        1: dict(inv=["self == &TREE && node == &NODE1 && OP <= N && RS == 0 && !T2 && !fx && VAL == 0"], pre='ASSERT(node == TREE.m_root && i == j, "every run starts at the root");', havoc="node = &NODE1; at(0);", body="at(i); ", end='down(BITV, i, node); node = &NODE1;', frame=["bitsSeen"], post='ASSERT(node == &NODE1 && node->m_hasSymbol, "down to a symbol"); SY = NODE1.m_symbol; NODE1.m_hasSymbol = nondet_bool();'),
        2: dict(inv=["self == &TREE && node == &NODE1 && symbol == SY && OP <= N && RS == 0 && !T2 && !fx && VAL == 0 && !ITREE.m_hasSymbol"], havoc="node = &NODE1; at(0);", body="at(i); ", end='down(BITV, i, node); node = &NODE1;', frame=["bitsSeen"], post='ASSERT(node == &NODE1 && node->m_hasSymbol, "down to a run length"); RS = NODE1.m_symbol; T2 = 1;'),
        3: dict(inv=["self == &TREE && node == &NODE1 && symbol == SY && OP <= N && RS == 0 && fx && VAL == 0 && runLength == 0 && leadingOnes == ONES && ONES < 64 && bit == BITV && LV == &NODE1.m_bitVector && LI == i"], pre="fx = 1; ONES = 0;", havoc="node = &NODE1; ONES = nondet_u64(); BITV = nondet_bool(); LV = &NODE1.m_bitVector; LI = nondet_u64();", body="at(i); ASSUME(ONES < 62);", end='ASSERT(did, "steps down"); down(1, i, node); ASSERT(LV == &node->m_bitVector && LI == i && bit == BITV, "next bit"); node = &NODE1; LV = &NODE1.m_bitVector; ++ONES;', frame=["bitsSeen"]),
        4: dict(inv=["self == &TREE && node == &NODE1 && symbol == SY && OP <= N && RS == 0 && fx && runLength == VAL && leadingOnes == ONES && ONES < 64 && bit == BITV && LV == &NODE1.m_bitVector && LI == i && k <= ONES + TREE.m_W && CK == k"], pre="CK = 0;", havoc="node = &NODE1; VAL = nondet_u64(); BITV = nondet_bool(); LV = &NODE1.m_bitVector; LI = nondet_u64(); CK = nondet_u64();", body="at(i); _Bool vp_b = BITV;", end='down(vp_b, i, node); ASSERT(LV == &node->m_bitVector && LI == i && bit == BITV, "next bit"); VAL = 2 * VAL + BITV; node = &NODE1; LV = &NODE1.m_bitVector; ++CK;', frame=["bitsSeen"], post='ASSERT(CK == ONES + TREE.m_W, "all bits of the number");'),
        5: dict(inv=["self == &TREE && k <= runLength && symbol == SY && OP <= N && runLength <= N - OP && len == OP && out == BUF + (OP + k)", "k <= W || BUF[OP + W] == SY"], pre='ASSERT(T2 == !ITREE.m_hasSymbol, "run lengths with codes of their own"); ASSERT(RS ? runLength == RS && !fx : fx && runLength == VAL + TR(ONES), "run length stored in the tree"); ASSUME(OP <= N && runLength <= N - OP); W = nondet_u64();', havoc="__CPROVER_havoc_object(BUF); out = BUF + (OP + k);", body="out = BUF + (OP + k);", dec="runLength - k", frame=["out"], post='ASSERT(!(W < runLength) || BUF[OP + W] == SY, "every byte of the run is its symbol"); OP += runLength; out = BUF + OP;')}
    G.append(Group("message", r"""
static _Bool *bv_at(const struct vec_Bool *v, size_t i) { if (!(v == LV && i == LI)) BITV = nondet_bool(); LV = v; LI = i; tmpb = BITV; return &tmpb; }
static uint64_t *map_TreeNode_std_vector_bool_uint64_t_at(void *m, node_t *n) { ASSERT(n == &NODE1, "count of the node visited"); did = 1; return &SEEN; }
static uint64_t c_tr(uint64_t b, uint32_t w) { ASSERT(b == ONES && w == TREE.m_W, "offset of the code's class"); return TR(b); }
void harness(void) { N = nondet_u64(); ASSUME(N < ((uint64_t)1 << 32)); BUF = malloc(N + 1); TREE.m_root = &NODE1; TREE.m_integerCodeTree = &ITREE; TREE.m_W = nondet_u32(); ASSUME(TREE.m_W < 16); ITREE.m_hasSymbol = nondet_bool(); NODE1.m_bitVector.n = nondet_u64(); NODE1.m_left = &LN; NODE1.m_right = &RN; LV = 0;
  uint64_t r = @{""" + WT + r"""message}(&TREE, BUF); REACH("spelled"); ASSERT(r == OP, "number of bytes"); }
""", pre=NODE + r"""
uint64_t __CPROVER_uninterpreted_tr(uint64_t);
#define TR(b) __CPROVER_uninterpreted_tr(b)
static node_t NODE1, ITREE; static const struct vec_Bool *LV; static uint64_t LI, SEEN, C0, I0, N, OP, VAL, ONES, CK, W, RS; static _Bool BITV, did, T2, fx; static uint8_t *BUF, SY; static uint64_t c_tr(uint64_t, uint32_t);
static void at(uint64_t i) { NODE1.m_left = &LN; NODE1.m_right = &RN; LN.m_hasSymbol = nondet_bool(); RN.m_hasSymbol = nondet_bool(); LN.m_symbol = nondet_u32(); RN.m_symbol = nondet_u32(); I0 = i; /* visits of a node are in order: the count is the ones before this bit */ C0 = SEEN = nondet_u64(); ASSUME(C0 <= i && i < ((uint64_t)1 << 40)); did = 0; }
static void down(_Bool b, uint64_t i, node_t *n) { ASSERT(n == (b ? &RN : &LN), "bit selects the child"); ASSERT(i == (b ? C0 : I0 - C0), "rank gives the place in the child"); ASSERT(SEEN == C0 + b, "count includes this bit"); NODE1.m_hasSymbol = n->m_hasSymbol; NODE1.m_symbol = n->m_symbol; }
""", defines=DEF.replace("#define VP_MAP_STRUCT(N, K, V)", "#define VP_MAP_STRUCT(N, K, V) VPM_##N(N, K, V)\n#define VPM_TreeNode_std_vector_bool_uint64_t(N, K, V) struct map_TreeNode_std_vector_bool_uint64_t { char c; }; static uint64_t *map_TreeNode_std_vector_bool_uint64_t_at(void *, struct TreeNode_std_vector_bool *);\n#define VPM_uint32_t_vec_Bool(N, K, V)"), stubs={WT + "fixedIntegerCodeTranslation": "c_tr"}, loops={WT + "message": MS}, unwind=2, flags=UF, checks=False))
    return G
