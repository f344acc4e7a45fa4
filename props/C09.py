from cbmc import Group
from check import Native

LEVEL = "proof"
EXPLANATION = ("sliceIntoBlocks: the loop is cut at an invariant saying that the slices handed out so far cover exactly the first `begin` bytes; holds for every data size and limit. "
               "Headers: for every size and slice count the tokens written are read back to the same fields in both header kinds. Constructors and setSize: memory reserved is always one byte more than the data.")
TRUSTED = ["packInteger / readPackedInteger as proved inverse in C01 (callee contracts here)", "Grammar::writeGrammar / readGrammar as callee contracts (C11)", "malloc/realloc succeed and preserve contents", "std::vector through its contract"]
ASSUMPTIONS = ["the slice limit is at least 1 and below 2^31-2 (C15 checks the caller)", "block sizes below 2^56"]
NATIVE = Native("c09.cpp", seconds=5, thorough_seconds=60, cxx=("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"),
                bound="all sizes up to 70 with all limits up to 80, random sizes up to 200000; headers with values of every bit length")

VDEF = r"""#include <stdint.h>
#include <stddef.h>
#define VP_VEC_STRUCT(N, T) struct vec_##N { T *d; size_t n; }; void vp_pushed_##N(T *x); \
static inline void vec_##N##_ctor(struct vec_##N *v) { v->n = 0; } \
static inline size_t vec_##N##_size(const struct vec_##N *v) { return v->n; } \
static inline _Bool vec_##N##_empty(const struct vec_##N *v) { return v->n == 0; } \
static inline void vec_##N##_clear(struct vec_##N *v) { v->n = 0; } \
static inline void vec_##N##_copy(struct vec_##N *v, const struct vec_##N *o) { *v = *o; } \
static inline void vec_##N##_resize(struct vec_##N *v, size_t n) { v->n = n; } \
static inline void vec_##N##_push_back(struct vec_##N *v, T x) { vp_pushed_##N(&x); v->n++; }
"""
TOK = r"""
static uint64_t P0, pv, bytes_out, tok[2], ntok, nr; static int pb, wb; static _Bool gw, gr;
static uint64_t c_pack(uint64_t v, int *b) { ASSERT(v < (1ull << 56), "packed values stay below 2^56"); ASSERT(pb == wb, "an integer is written completely before the next"); pb = nondet_i32(); ASSUME(pb >= 1 && pb <= 8); *b = pb; wb = 0; P0 = nondet_u64(); ASSUME(pb == 8 || (P0 >> (8 * pb)) == 0);
  ASSERT(ntok < 2, "at most two integers"); tok[ntok++] = v; return P0; }
static void c_writeByte(void *o, uint8_t b) { ASSERT(ntok >= 1 && wb < pb && !gw, "bytes belong to a packed integer"); ASSERT(b == (uint8_t)(P0 >> (8 * wb)), "packed bytes in order, low first"); ++wb; ++bytes_out; }
static size_t c_writeGrammar(const void *g, void *o) { ASSERT(pb == wb && ntok >= 1 && !gw, "the grammar follows complete integers"); gw = 1; size_t n = nondet_size(); ASSUME(n >= 1 && n < (1u << 20)); bytes_out += n; return n; }
static size_t c_rpi(void *in, size_t *bytes) { ASSERT(nr < ntok && !gr, "reader asks for the integers the writer wrote"); *bytes = nondet_size(); return tok[nr++]; }
static void c_readGrammar(void *g, void *in) { ASSERT(nr == ntok && !gr, "grammar is read after the integers"); gr = 1; }
"""
HST = {"utils::packInteger": "c_pack", "bwtc::OutStream::writeByte": "c_writeByte", "bwtc::Grammar::writeGrammar": "c_writeGrammar", "utils::readPackedInteger": "c_rpi", "bwtc::Grammar::readGrammar": "c_readGrammar", "bwtc::Grammar::Grammar": "c_gctor"}


def groups(tier):
    G = []
    PB = "@T{bwtc::PrecompressorBlock}"
    G.append(Group("slices", r"""
void harness(void) {
  static %s b; uint64_t IN_used = nondet_u64(), IN_limit = nondet_u64(); ASSUME(IN_used < (1ull << 46) && IN_limit >= 1 && IN_limit < 0x7ffffffe);
  b.m_used = USED = IN_used; b.m_reserved = nondet_u64(); ASSUME(b.m_reserved > IN_used && b.m_reserved <= (1ull << 46)); b.m_data = DATA = malloc(b.m_reserved); ASSUME(DATA != 0); LIMIT = IN_limit; b.m_bwtBlocks.n = nondet_size();
  @{bwtc::PrecompressorBlock::sliceIntoBlocks}(&b, IN_limit); REACH("sliced");
  ASSERT(COV == USED, "slices cover the data exactly"); ASSERT(b.m_bwtBlocks.n == CNT, "as many slices as were made"); ASSERT(@{bwtc::PrecompressorBlock::slices}(&b) == CNT, "slice count"); ASSERT(b.m_data == DATA && b.m_used == USED, "the data itself is not touched");
}""" % PB, pre=r"""
static uint8_t *DATA; static uint64_t USED, LIMIT, COV, CNT;
void vp_pushed_BWTBlock(@T{bwtc::BWTBlock} *x) { ASSERT(x->m_begin == DATA + COV, "slices follow each other without gap or overlap"); ASSERT(x->m_length >= 1 && x->m_length <= LIMIT, "slice size within the limit"); ASSERT(x->m_length <= USED - COV, "slice inside the data"); ASSERT(!x->m_isTransformed, "a new slice is not transformed"); COV += x->m_length; ++CNT; }
""", defines=VDEF, stubs={"bwtc::Grammar::Grammar": "c_gctor"}, loops={"bwtc::PrecompressorBlock::sliceIntoBlocks": {0: dict(
        inv=["begin == COV && COV <= USED", "self->m_used == USED && self->m_data == DATA && blockSize == LIMIT", "CNT == self->m_bwtBlocks.n && CNT <= COV"], havoc="COV = nondet_u64(); CNT = nondet_u64(); self->m_bwtBlocks.n = nondet_size();", frame=["()"], dec="USED - COV")}}, unwind=3))
    for kind, val, fields in (("original", 0, 2), ("compressed", 1, 1)):
        en = "PRECOMP_ORIGINAL_SIZE" if kind == "original" else "PRECOMP_COMPRESSED_SIZE"
        rb = r"""
static uint64_t CS; static size_t c_readBlock(void *in, uint8_t *p, size_t n) { ASSERT(gr && n == CS, "the data follows the grammar"); ASSERT(__CPROVER_r_ok(p, n) , "the data fits"); return n; }
""" if kind == "compressed" else ""
        st = dict(HST)
        if kind == "compressed":
            st["bwtc::InStream::readBlock"] = "c_readBlock"
        else:
            rb += "static size_t c_readBlock(void *in, uint8_t *p, size_t n) { ASSERT(0, \"no data read here\"); return n; }"
            st["bwtc::InStream::readBlock"] = "c_readBlock"
        G.append(Group("header_" + kind, r"""
void harness(void) {
  static %(PB)s b; b.m_used = nondet_u64(); b.m_originalSize = nondet_u64(); b.m_bwtBlocks.n = nondet_size(); uint64_t IN_used = b.m_used, IN_orig = b.m_originalSize, IN_slices = b.m_bwtBlocks.n; ASSUME(IN_orig >= 1 && IN_orig < (1ull << 46) && IN_used >= 1 && IN_used < (1ull << 46) && IN_slices < (1ull << 46));
  size_t n = @{bwtc::PrecompressorBlock::writeBlockHeader}(&b, (void*)0, %(md)s); REACH("written");
  ASSERT(gw && n == bytes_out, "counted bytes are the bytes written"); ASSERT(ntok == %(f)d, "number of header integers");
  %(setcs)s
  %(PB)s *r = @{bwtc::PrecompressorBlock::readBlockHeader}((void*)0, %(md)s); REACH("read");
  ASSERT(gr && nr == ntok, "reader consumes exactly the header"); ASSERT(r != 0 && r->m_reserved == __CPROVER_OBJECT_SIZE(r->m_data), "memory is as large as recorded");
  %(post)s
}""" % dict(PB=PB, md=val, f=fields, setcs="CS = IN_used;" if kind == "compressed" else "",
            post='ASSERT(r->m_originalSize == IN_orig, "original size survives"); ASSERT(r->m_bwtBlocks.n == IN_slices, "slice count survives"); ASSERT(r->m_used == 0 && r->m_reserved == IN_orig + 1, "room for the original data and the sentinel");' if kind == "original" else
            'ASSERT(r->m_used == IN_used, "data size survives"); ASSERT(r->m_reserved == IN_used + 1, "room for the data and the sentinel");'),
            pre=TOK + rb + "static void c_gctor(void *g) {}\n#define vp_realloc(p, n) vp_new(n)\n", defines=VDEF, stubs=st, unwind=10))
    G.append(Group("header_end", r"""
void harness(void) {
  size_t n = @{bwtc::PrecompressorBlock::writeEmptyHeader}((void*)0); REACH("written"); ASSERT(n == 1 && cnt == 1 && last == 0, "the end mark is one zero byte");
  %s *r = @{bwtc::PrecompressorBlock::readBlockHeader}((void*)0, 0); REACH("read"); ASSERT(r->m_originalSize == 0 && rd == 1, "the end mark reads as an empty block and nothing more is consumed");
}""" % PB, pre=r"""static int cnt, rd; static uint8_t last; static void c_gctor(void *g) {} static void c_writeByte(void *o, uint8_t b) { ++cnt; last = b; }
static size_t c_rpi(void *in, size_t *bytes) { ++rd; *bytes = 1; return last; } static void c_readGrammar(void *g, void *in) { ASSERT(0, "no grammar after the end mark"); } static size_t c_readBlock(void *in, uint8_t *p, size_t n) { ASSERT(0, "no data after the end mark"); return n; }
#define vp_realloc(p, n) vp_new(n)
""", defines=VDEF, stubs={"bwtc::OutStream::writeByte": "c_writeByte", "utils::readPackedInteger": "c_rpi", "bwtc::Grammar::readGrammar": "c_readGrammar", "bwtc::Grammar::Grammar": "c_gctor", "bwtc::InStream::readBlock": "c_readBlock"}, unwind=3))
    G.append(Group("memory", r"""
static uint64_t RD; static size_t c_readBlock(void *in, uint8_t *p, size_t n) { ASSERT(__CPROVER_w_ok(p, n), "reading stays inside the block"); RD = nondet_u64(); ASSUME(RD <= n); return RD; }
void harness(void) {
  static %(PB)s b, c; uint64_t IN_max = nondet_u64(); ASSUME(IN_max < (1ull << 46));
  @{bwtc::PrecompressorBlock::PrecompressorBlock|size_t, InStream}(&b, IN_max, (void*)0); REACH("constructed");
  ASSERT(b.m_used == RD && b.m_originalSize == RD && b.m_reserved == RD + 1 && __CPROVER_OBJECT_SIZE(b.m_data) == RD + 1, "block holds what was read plus one byte");
  uint64_t IN_size = nondet_u64(); ASSUME(IN_size >= 1 && IN_size < (1ull << 46)); @{bwtc::PrecompressorBlock::setSize}(&b, IN_size);
  ASSERT(b.m_used == IN_size && b.m_reserved == IN_size + 1 && __CPROVER_OBJECT_SIZE(b.m_data) == b.m_reserved && b.m_originalSize == RD, "resizing keeps one spare byte and the original size");
  uint64_t add = nondet_u64(); ASSUME(add < (1ull << 46)); @{bwtc::PrecompressorBlock::usedAtEnd}(&b, add); ASSERT(b.m_used == IN_size + add && @{bwtc::PrecompressorBlock::size}(&b) == b.m_used, "used size");
}""" % dict(PB=PB), pre="static size_t c_readBlock(void *in, uint8_t *p, size_t n); static void c_gctor(void *g) {}\n#define vp_realloc(p, n) vp_new(n)\n", defines=VDEF, stubs={"bwtc::InStream::readBlock": "c_readBlock", "bwtc::Grammar::Grammar": "c_gctor"}, unwind=3))
    return G
