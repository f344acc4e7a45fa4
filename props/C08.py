from cbmc import Group
from check import Native

LEVEL = "proof"
EXPLANATION = ("Starting points: writer and reader loops are cut at invariants; an arbitrary watched starting point's 31 bits are followed from the writer's bytes to the reader's bits, for 1..256 points "
               "of any value. Sections: the merging loop is checked for every character distribution with the section lists represented by their length, sum, last element and one arbitrary watched element; "
               "the reader consumes exactly the written tokens and returns the watched one unchanged.")
TRUSTED = ["packInteger/unpackInteger and writePackedInteger/readPackedInteger as proved inverse in C01 (callee contracts here)",
           "OutStream/InStream interface contract (C04/C05)", "std::vector, std::copy through their contracts"]
ASSUMPTIONS = ["the transform block is not empty (C09), its size is below 2^31 and it has 1..256 starting points (BWTBlock::prepareLFpowers, group lf_count)"]
NATIVE = Native("c08.cpp", seconds=5, thorough_seconds=60, cxx=("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"),
                bound="all counts 1..256 with random and extreme 31-bit values; random character distributions up to 256 sections, both coders")

LFDEF = r"""#include <stdint.h>
#include <stddef.h>
#define VP_VEC_STRUCT(N, T) struct vec_##N { T *d; size_t n; }; \
static inline size_t vec_##N##_size(const struct vec_##N *v) { return v->n; } \
static inline T *vec_##N##_at(const struct vec_##N *v, size_t i) { __CPROVER_assert(i < v->n, "vector index in bounds"); return (T*)&v->d[i]; } \
static inline void vec_##N##_resize(struct vec_##N *v, size_t n) { __CPROVER_assert(n <= 256, "at most 256 starting points"); v->n = n; }
"""
LF = r"""
static uint64_t NP, I, Q; static uint32_t TB; static _Bool B, REC, SEEN; /* watched point I, its bit TB, payload position Q of that bit, its value; the bit as written */
static uint64_t nb; static uint8_t first; static _Bool has_first; /* payload bytes written, count byte */
static void c_writeByte(void *o, uint8_t b) {
  if (!has_first) { has_first = 1; first = b; return; }
  if (Q >= 8 * nb && Q < 8 * nb + 8) { REC = (b >> (7 - (Q - 8 * nb))) & 1; SEEN = 1; }
  ++nb; }
static uint64_t rq; static _Bool aligned, rfirst;
static uint8_t c_readByte(void *in) { ASSERT(!rfirst, "one count byte"); rfirst = 1; return first; }
static _Bool c_readBit(void *in) { ASSERT(rfirst && !aligned, "bits follow the count byte"); ASSERT(rq < 8 * nb, "reader stays inside what the writer wrote"); uint64_t q = rq++; return q == Q ? REC : nondet_bool(); }
static void c_flush(void *in) { rq = (rq + 7) / 8 * 8; aligned = 1; }
static void watch(void) { NP = nondet_u64(); ASSUME(NP >= 1 && NP <= 256); I = nondet_u64(); ASSUME(I < NP); TB = nondet_u32(); ASSUME(TB <= 30); Q = 31 * I + (30 - TB); }
"""
ST = {"bwtc::OutStream::writeByte": "c_writeByte", "bwtc::InStream::readByte": "c_readByte", "bwtc::InStream::readBit": "c_readBit", "bwtc::InStream::flushBuffer": "c_flush"}

SECDEF = r"""#include <stdint.h>
#include <stddef.h>
/* vector of section lengths seen through: number, sum, last element, one watched element */
static void acc_read(uint64_t e); static size_t T_; static uint64_t tok_value(size_t i);
#define VP_VEC_STRUCT(N, T) struct vec_##N { T last; T endm; T wt; uint64_t rest; size_t n; _Bool input; size_t next; T cur; _Bool out; }; \
static inline void vec_##N##_ctor(struct vec_##N *v) { v->n = 0; v->rest = 0; v->last = 0; v->input = 0; v->out = 0; } \
static inline size_t vec_##N##_size(const struct vec_##N *v) { return v->n; } \
static inline _Bool vec_##N##_empty(const struct vec_##N *v) { return v->n == 0; } \
static inline void vec_##N##_push_back(struct vec_##N *v, T x) { if (v->n) { if (v->n - 1 == T_) v->wt = v->last; v->rest += v->last; } v->last = x; v->n++; } \
static inline T *vec_##N##_back(struct vec_##N *v) { __CPROVER_assert(v->n > 0, "back() of an empty vector"); return &v->last; } \
static inline T *vec_##N##_at(const struct vec_##N *cv, size_t i) { struct vec_##N *v = (struct vec_##N *)cv; __CPROVER_assert(i < v->n, "vector index in bounds"); \
  if (v->input) { __CPROVER_assert(i == v->next, "model: distribution read once, in order"); v->next++; T e; v->cur = e; acc_read(e); return &v->cur; } \
  if (i == v->n - 1) { v->cur = v->last; return &v->cur; } T e; v->cur = i == T_ ? v->wt : e; return &v->cur; } \
static inline void vec_##N##_resize(struct vec_##N *v, size_t n) { v->n = n; v->input = 0; v->rest = 0; T e; v->last = e; v->wt = e; } \
static inline T *vec_##N##_begin(struct vec_##N *v) { return &v->last; } \
static inline T *vec_##N##_end(struct vec_##N *v) { return &v->endm; } \
static inline void vec_##N##_copy(struct vec_##N *v, const struct vec_##N *o) { *v = *o; }
"""
SEC = r"""
static uint64_t total; /* sum of the distribution entries read so far */
static void acc_read(uint64_t e) { ASSUME(e <= 0x7fffffff && total + e <= 0x7fffffff); total += e; }
#define VEC32(p) ((struct vec_uint32_t *)(p))
static void vp_copy_uint32_t(uint32_t *b, uint32_t *e, uint32_t *o) { struct vec_uint32_t *s = VEC32(b), *d = VEC32(o); ASSERT(e == &s->endm, "model: a whole vector is copied"); ASSERT(d->n >= s->n, "the copy fits"); size_t n = d->n; *d = *s; ASSERT(n == s->n, "model: sizes agree"); }
/* output stream: position, placeholder, header, count byte, packed tokens */
static uint64_t pos, hdr_at, lens; static int stage; static uint8_t cnt; static uint64_t ntok, watched; static uint64_t P0; static uint64_t pv; static _Bool packed; static int pbytes;
static long c_getPos(void *o) { return (long)pos; }
static void c_writeByte(void *o, uint8_t b) { if (stage < 6) { ASSERT(b == 0, "placeholder for the length"); ++stage; ++pos; return; } ASSERT(stage == 7, "starting points come before the section count"); stage = 8; cnt = b; ++pos; }
static size_t c_writeHeader(const void *b, void *o) { ASSERT(stage == 6, "starting points follow the length field"); stage = 7; size_t n = nondet_size(); ASSUME(n >= 1 && n < 2000); lens = n; pos += n; return n; }
static uint64_t c_pack(uint64_t v, int *bytes) { ASSERT(v < (1ull << 56), "packed values stay below 2^56"); pbytes = nondet_i32(); ASSUME(pbytes >= 1 && pbytes <= 8); *bytes = pbytes; pv = v; packed = 1; P0 = nondet_u64(); return P0; }
static void c_wpi(void *e, uint64_t p, void *o) { ASSERT(stage == 8, "section lengths follow their count"); ASSERT(packed && p == P0, "model: a packed integer is written"); packed = 0; if (ntok == T_) watched = pv; ++ntok; pos += pbytes; }
/* input stream */
static int rs; static uint64_t rt, rp; static _Bool pend;
static uint64_t LENV;
static uint64_t c_read48(void *in) { ASSERT(rs == 0, "length field first"); rs = 1; return LENV; }
static void c_readHeader(void *b, void *in) { ASSERT(rs == 1, "starting points follow the length field"); rs = 2; }
static uint8_t c_readByte(void *in) { ASSERT(rs == 2, "section count follows the starting points"); rs = 3; return cnt; }
static uint64_t c_rpi(void *d, void *in) { ASSERT(rs == 3 && rt < ntok, "reader stays inside what the writer wrote"); ++rt; pend = 1; rp = nondet_u64(); return rp; }
static uint64_t c_unpack(uint64_t p) { ASSERT(pend && p == rp, "model: a packed integer just read is unpacked"); pend = 0; return rt - 1 == T_ ? watched : nondet_u64(); }
"""


def sections(cls):
    E, D = "bwtc::%sEncoder" % cls, "bwtc::%sDecoder" % cls
    st = {"bwtc::OutStream::writeByte": "c_writeByte", "bwtc::OutStream::getPos": "c_getPos", "bwtc::BWTBlock::writeHeader": "c_writeHeader", "utils::packInteger": "c_pack", E + "::writePackedInteger": "c_wpi",
          "bwtc::InStream::read48bits": "c_read48", "bwtc::BWTBlock::readHeader": "c_readHeader", "bwtc::InStream::readByte": "c_readByte", D + "::readPackedInteger": "c_rpi", "utils::unpackInteger": "c_unpack"}
    tot = "temp.rest + (temp.n ? temp.last : 0)"
    lp = {E + "::writeBlockHeader": {
        1: dict(pre="struct vec_uint32_t *SV = stats;", alias={"s": "SV"}, inv=["SV->input && SV->n == 256 && SV->next == i && i <= 256", "sum < 10000", "temp.n <= i && !temp.input", "total == sum + " + tot, "total <= 0x7fffffff", "temp.rest <= total", "temp.n > 0 || temp.rest == 0",
                     "stage == 7 && pos == pos0 + 6 + lens && headerLength == lens", "temp.n < 1 || temp.last >= 10000", "temp.n < 2 || T_ >= temp.n - 1 || temp.wt >= 10000"],
                havoc="SV->next = nondet_size(); SV->cur = nondet_u32(); total = nondet_u64(); temp.n = nondet_size(); temp.rest = nondet_u64(); temp.last = nondet_u32(); temp.wt = nondet_u32();", frame=["()", "temp", "s"], dec="256 - i"),
        2: dict(inv=["stats == SV2 && SV2->n == temp.n && !SV2->input && SV2->n <= 256 && SV2->last == temp.last && SV2->wt == temp.wt && SV2->rest == temp.rest", "i <= SV2->n", "ntok == i && stage == 8", "pos == pos0 + 6 + headerLength", "headerLength >= 2 && headerLength <= 2000 + 1 + 8 * i", "i <= T_ || watched == (T_ == SV2->n - 1 ? SV2->last : SV2->wt)"],
                havoc="ntok = nondet_u64(); pos = nondet_u64(); watched = nondet_u64(); SV2->cur = nondet_u32(); packed = nondet_bool(); pv = nondet_u64(); P0 = nondet_u64(); pbytes = nondet_i32();", frame=["()"], dec="256 - i")},
        D + "::readBlockHeader": {
        0: dict(inv=["sects == ntok && i <= sects && rt == i && rs == 3", "stats == OUT && OUT->n == i && !OUT->input", "i <= T_ || OUTAT(T_) == watched"],
                havoc="rt = nondet_u64(); rp = nondet_u64(); pend = nondet_bool(); OUT->n = nondet_size(); OUT->last = nondet_u64(); OUT->wt = nondet_u64(); OUT->rest = nondet_u64();", frame=["()"], dec="256 - i")}}
    return Group("sections_" + cls.lower(), r"""
void harness(void) {
  static struct vec_uint32_t st; static struct vec_uint64_t out; st.input = 1; st.n = 256; st.next = 0; SV2 = &st; OUT = &out; out.n = 0; out.rest = 0; out.input = 0; T_ = nondet_size(); ASSUME(T_ < 256);
  pos0 = nondet_u64(); ASSUME(pos0 < (1ull << 48)); pos = pos0; total = 0; static @T{%(E)s} enc; static @T{%(D)s} dec;
  @{%(E)s::writeBlockHeader}(&enc, (void*)0, &st, (void*)0);
  REACH("written"); ASSUME(total >= 1); /* a block is not empty */
  ASSERT(st.n >= 1 && st.n <= 256 && ntok == st.n, "one length per section"); ASSERT(st.rest + st.last == total, "section lengths add up to the block size"); ASSERT(st.last >= 1 && (T_ >= st.n - 1 || st.wt >= 1), "no section is empty");
  ASSERT(cnt == (uint8_t)st.n, "count byte"); ASSERT(enc.m_compressedBlockLength == pos - pos0 - 6, "counted header length is the number of bytes written"); ASSERT(enc.m_headerPosition == (long)pos0, "length field position");
  LENV = nondet_u64(); uint64_t r = @{%(D)s::readBlockHeader}(&dec, (void*)0, &out, (void*)0);
  REACH("read"); ASSERT(r == LENV && rt == ntok && rs == 3, "reader consumes exactly the header"); ASSERT(out.n == st.n, "same number of sections");
  if (T_ < st.n) ASSERT(OUTAT(T_) == (T_ == st.n - 1 ? st.last : st.wt), "same section length");
}""" % dict(E=E, D=D), pre=SEC + "static struct vec_uint32_t *SV2; static struct vec_uint64_t *OUT; static uint64_t pos0;\n#define OUTAT(t) ((t) == OUT->n - 1 ? OUT->last : OUT->wt)\n", defines=SECDEF, stubs=st, loops=lp, unwind=8, timeout=400)


def groups(tier):
    G = []
    wl = {"bwtc::BWTBlock::writeHeader": {0: dict(
        inv=["self->m_LFpowers.n == NP && NP >= 1 && NP <= 256 && i <= NP && I < NP && Q == 31 * I + (30 - TB) && TB <= 30 && ((self->m_LFpowers.d[I] >> TB) & 1) == B", "nb <= 1000", "bitsLeft >= 1 && bitsLeft <= 8", "8 * nb + (uint64_t)(8 - bitsLeft) == 31 * i", "bytes == nb + 1 && has_first && first == (uint8_t)(NP - 1)",
             "SEEN == (Q < 8 * nb)", "!SEEN || REC == B", "!(Q >= 8 * nb && Q < 8 * nb + (8 - bitsLeft)) || ((s >> (8 - bitsLeft - 1 - (Q - 8 * nb))) & 1) == B"],
        havoc="nb = nondet_u64(); REC = nondet_bool(); SEEN = nondet_bool();", dec="256 - i")}}
    G.append(Group("lf_write", r"""
void harness(void) {
  static @T{bwtc::BWTBlock} b; watch(); static uint32_t arr[256]; __CPROVER_havoc_object(arr); b.m_LFpowers.d = arr; b.m_LFpowers.n = NP; B = (arr[I] >> TB) & 1;
  uint64_t r = @{bwtc::BWTBlock::writeHeader}(&b, (void*)0); REACH("written");
  ASSERT(first == (uint8_t)(NP - 1), "count byte"); ASSERT(SEEN && REC == B, "every bit of a starting point is written in its place"); ASSERT(nb == (31 * NP + 7) / 8, "payload padded to whole bytes"); ASSERT(r == nb + 1, "counted length is the number of bytes written");
}""", pre=LF, defines=LFDEF, stubs=ST, loops=wl, unwind=33, flags=("--arrays-uf-always",), timeout=400))
    rl = {"bwtc::BWTBlock::readHeader": {0: dict(
        inv=["self->m_LFpowers.n == NP && LFpows == NP && NP >= 1 && NP <= 256 && i <= NP", "rq == 31 * (uint64_t)i && !aligned && rfirst", "i <= I || (((self->m_LFpowers.d[I] >> TB) & 1) == B && self->m_LFpowers.d[I] < (1u << 31))", "Q == 31 * I + (30 - TB) && TB <= 30 && I < NP && REC == B"],
        havoc="rq = nondet_u64(); __CPROVER_havoc_object(self->m_LFpowers.d);", frame=["m_LFpowers"], dec="256 - i")}}
    G.append(Group("lf_read", r"""
void harness(void) {
  static @T{bwtc::BWTBlock} b; static uint32_t arr[256]; b.m_LFpowers.d = arr; watch(); B = nondet_bool();
  first = (uint8_t)(NP - 1); nb = (31 * NP + 7) / 8; REC = B; /* what lf_write proves */
  @{bwtc::BWTBlock::readHeader}(&b, (void*)0); REACH("read");
  ASSERT(b.m_LFpowers.n == NP, "same number of starting points"); ASSERT(((arr[I] >> TB) & 1) == B && arr[I] < (1u << 31), "same starting point, bit for bit"); ASSERT(rq == 8 * nb, "reader stops where the writer stopped");
}""", pre=LF, defines=LFDEF, stubs=ST, loops=rl, unwind=33, flags=("--arrays-uf-always",), timeout=400))
    G.append(Group("lf_count", r"""
void harness(void) {
  static @T{bwtc::BWTBlock} b; b.m_length = nondet_u32(); uint32_t IN_sp = nondet_u32(); uint32_t IN_len = b.m_length;
  @{bwtc::BWTBlock::prepareLFpowers}(&b, IN_sp); REACH("prepared");
  ASSERT(b.m_LFpowers.n >= 1 && b.m_LFpowers.n <= 256, "1 to 256 starting points"); ASSERT(b.m_LFpowers.n == 1 || b.m_LFpowers.n < IN_len, "never more starting points than bytes");
}""", defines=LFDEF, unwind=2))
    G.append(sections("Huffman"))
    G.append(sections("Wavelet"))
    return G
