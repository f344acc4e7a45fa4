from cbmc import Group
from check import Native

LEVEL = "proof"
EXTRA_TU = """
namespace utils { template size_t binaryDecode<bwtc::InStream>(bwtc::InStream&, size_t, size_t);
template byte logCeiling<unsigned>(unsigned); }
namespace bwtc { inline void vpInst(std::vector<bool>& v) { WaveletTree<std::vector<bool> >::gammaCode(v, 1); } }
"""
EXPLANATION = ("Range, unary, gamma and semi-fixed codes: writer and reader are composed for every value and parameter (64-bit free variables; loops unrolled to the word width "
               "or cut at an invariant).  Interpolative coding: the recursive functions are checked one activation at a time, for every list, range and segment, with the "
               "recursive calls replaced by the contract being proved (the coded segment is read back in order, consuming exactly its code), each on a strictly smaller segment.")
TRUSTED = ["structural induction over the recursion of the interpolative code (each activation and the decrease are machine checked)",
           "std::vector through its contract (ghost vector with an arbitrary watched element)"]
ASSUMPTIONS = ["lists are strictly increasing and inside the range, as the callers build them (checked as a precondition of every recursive call)",
               "quick tier: range sizes below 2^40 and 32-bit list elements below 2^16; thorough tier: range sizes below 2^63, all 32-bit elements", "run lengths are 32-bit and the run-length parameter is 0..15, as in the format"]
NATIVE = Native("c06.cpp", seconds=6, thorough_seconds=90, cxx=("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"),
                bound="random lists up to 400 elements in ranges up to 2^32, all lists in ranges up to 9, every code with values of every bit length")

BITS = r"""
static size_t rd; static struct vec_Bool *src;
static _Bool vp_readBit(void *in) { ASSERT(rd < src->n, "reader stays inside what the writer wrote"); return rd < VP_VEC_CAP ? src->d[rd++] : 0; }
"""
RB = {"bwtc::InStream::readBit": "vp_readBit"}

# ghost list: element values are an arbitrary strictly increasing sequence; one arbitrary index is watched
GHOSTVEC = r"""
#define VP_VEC_STRUCT(N, T) struct vec_##N { char c; }; \
static inline T *vec_##N##_at(const struct vec_##N *v, size_t i) { T *c = malloc(sizeof(T)); __CPROVER_assume(c != 0); *c = (T)list_at(i); return c; } \
static inline void vec_##N##_push_back(struct vec_##N *v, T x) { out_push((uint64_t)x); }
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
static uint64_t list_at(size_t i); static void out_push(uint64_t x);
"""
INTERP = r"""
#define MAXV %(maxv)s
/* list model: an arbitrary strictly increasing sequence inside the range, seen at one arbitrary watched index W and at the one index H the activation looks at */
static uint64_t B, E, LO, HI, W, vW, H, vH; static _Bool has_h;
static _Bool in_seg(uint64_t i, uint64_t v) { return v <= MAXV && v >= LO + (i - B) && v <= HI - (E - i); }
static uint64_t list_at(size_t i) { if (i == W) return vW; if (has_h && i == H) return vH;
  ASSERT(i >= B && i <= E, "list index inside the segment"); ASSERT(!has_h, "model: one element per activation"); has_h = 1; H = i; vH = nondet_u64();
  ASSUME(in_seg(i, vH)); ASSUME(W < i ? vH > vW && vH - vW >= i - W : vW > vH && vW - vH >= W - i); return vH; }
/* the code an activation writes, as the contracts' tokens in order: element, left segment, right segment */
static uint64_t tn, tlo, thi, lb, le, llo, lhi, rb, re, rlo, rhi; static _Bool t_ok, l_ok, r_ok; static int wr, rdp;
static void c_binaryCode(uint64_t n, uint64_t lo, uint64_t hi, void *bits) { ASSERT(lo <= n && n <= hi && hi <= MAXV, "a coded element lies in its range"); ASSERT(!t_ok && !l_ok && !r_ok, "the element is coded first"); t_ok = 1; tn = n; tlo = lo; thi = hi; }
static uint64_t c_binaryDecode(void *in, uint64_t lo, uint64_t hi, uint64_t *br) { ASSERT(t_ok && rdp == 0 && tlo == lo && thi == hi, "decoder asks for the range the encoder used"); rdp = 1; *br += nondet_u8(); return tn; }
static void c_code(void *l, uint64_t b, uint64_t e, uint64_t lo, uint64_t hi, void *bits) {
  if (b > e) { ASSERT(b == e + 1, "an empty segment"); return; }
  ASSERT(b >= B && e <= E && e - b < E - B, "recursion on a strictly smaller segment");
  ASSERT(hi <= MAXV && lo <= hi && e - b <= hi - lo, "the subrange has room for the segment");
  if (W >= b && W <= e) ASSERT(vW >= lo + (W - b) && vW <= hi - (e - W), "segment elements lie inside the subrange");
  ASSERT(t_ok, "the element is coded first");
  if (b == B) { ASSERT(!l_ok && !r_ok, "segments are coded in order"); l_ok = 1; lb = b; le = e; llo = lo; lhi = hi; }
  else { ASSERT(!r_ok, "segments are coded in order"); r_ok = 1; rb = b; re = e; rlo = lo; rhi = hi; } }
/* decoder output: next list index expected */
static uint64_t next_out;
static void out_push(uint64_t x) { ASSERT(next_out <= E, "no more elements than coded"); if (next_out == W) ASSERT(x == vW, "elements come out in order with their values"); ++next_out; }
static uint64_t c_decode(void *l, void *in, uint64_t lo, uint64_t hi, uint64_t n) {
  if (n == 0) return 0;
  if (rdp == 1 && l_ok) { ASSERT(llo == lo && lhi == hi && le - lb + 1 == n, "decoder recurses on the encoder's left subrange and count"); ASSERT(next_out == lb, "segments are decoded in list order"); next_out = le + 1; rdp = 2; }
  else { ASSERT((rdp == 1 || rdp == 2) && r_ok && rlo == lo && rhi == hi && re - rb + 1 == n, "decoder recurses on the encoder's right subrange and count"); ASSERT(next_out == rb, "segments are decoded in list order"); next_out = re + 1; rdp = 3; }
  return nondet_u32(); }
"""
INTERP_H = r"""
void harness(void) {
  uint64_t IN_begin = nondet_u64(), IN_end = nondet_u64(), IN_lo = nondet_u64(), IN_hi = nondet_u64();
  ASSUME(IN_begin <= IN_end && IN_end <= MAXV && IN_hi <= MAXV && IN_lo <= IN_hi && IN_end - IN_begin <= IN_hi - IN_lo);
  B = IN_begin; E = IN_end; LO = IN_lo; HI = IN_hi; W = nondet_u64(); ASSUME(W >= B && W <= E); vW = nondet_u64(); ASSUME(in_seg(W, vW));
  @{utils::binaryInterpolativeCode|std::vector<%(ty)s> &, size_t, size_t, size_t, size_t}((void*)0, IN_begin, IN_end, IN_lo, IN_hi, (void*)0);
  REACH("coded");
  next_out = B;
  uint64_t r = @{utils::binaryInterpolativeDecode|std::vector<%(ty)s> &, bwtc::InStream &, size_t, size_t, size_t}((void*)0, (void*)0, IN_lo, IN_hi, IN_end - IN_begin + 1);
  REACH("decoded");
  ASSERT(next_out == E + 1, "exactly the coded elements come out"); ASSERT(rdp == (r_ok ? 3 : l_ok ? 2 : t_ok ? 1 : 0), "exactly the code is consumed");
}"""


def groups(tier):
    G = []
    G.append(Group("logarithms", r"""
void harness(void) {
  uint32_t IN_x = nondet_u32(); uint64_t IN_y = nondet_u64(); ASSUME(IN_x > 0 && IN_y > 0);
  uint8_t a = @{utils::logFloor|(unsigned int)}(IN_x), b = @{utils::logFloor|(unsigned long)}(IN_y), c = @{utils::logCeiling|(unsigned long)}(IN_y), d = @{utils::logCeiling|(unsigned int)}(IN_x);
  REACH("computed");
  ASSERT(a < 32 && (IN_x >> a) == 1, "floor logarithm, 32 bits"); ASSERT(b < 64 && (IN_y >> b) == 1, "floor logarithm, 64 bits");
  ASSERT(c <= 64 && (c == 64 || IN_y <= (1ull << c)) && (c == 0 ? IN_y == 1 : IN_y > (1ull << (c - 1))), "ceiling logarithm, 64 bits");
  ASSERT(d <= 32 && (d == 32 || IN_x <= (1u << d)) && (d == 0 ? IN_x == 1 : IN_x > (1u << (d - 1))), "ceiling logarithm, 32 bits");
  ASSERT(@{utils::mostSignificantBit}(IN_x) == (1u << a), "most significant bit"); if (IN_x < 65536) ASSERT(@{utils::mostSignificantBit16}(IN_x) == (1u << a), "most significant bit, 16 bits");
}""", unwind=4))
    for nm, extra, call, post in (("count", "", ", &br", 'ASSERT(br == br0 + bv.n, "reported bit count is the number of bits of the code");'), ("plain", "", "", "")):
        sig = "size_t, size_t, size_t *" if nm == "count" else "(bwtc::InStream &, size_t, size_t)"
        G.append(Group("range_code_" + nm, BITS + r"""
void harness(void) {
  uint64_t IN_n = nondet_u64(), IN_lo = nondet_u64(), IN_hi = nondet_u64(); ASSUME(IN_lo <= IN_n && IN_n <= IN_hi && IN_hi - IN_lo < (1ull << %d));
  struct vec_Bool bv; bv.n = 0; src = &bv;
  @{utils::binaryCode}(IN_n, IN_lo, IN_hi, &bv);
  REACH("coded");
  size_t br = nondet_size(), br0; ASSUME(br < 1000); br0 = br;
  uint64_t m = @{utils::binaryDecode|%s}((void*)0, IN_lo, IN_hi%s);
  REACH("decoded");
  ASSERT(m == IN_n, "value survives"); ASSERT(rd == bv.n, "exactly the code is consumed"); %s
}""" % (40 if tier == "quick" else 63, sig, call, post), pre="static _Bool vp_readBit(void*);", defines="#define VP_VEC_CAP 72", stubs=RB, unwind=66, timeout=700, flags=("--sat-solver", "cadical")))
    G.append(Group("push_bits", r"""
void harness(void) {
  uint64_t IN_n = nondet_u64(); uint8_t IN_bits = nondet_u8(); ASSUME(IN_bits <= 64); struct vec_Bool a, b; a.n = b.n = 0; size_t k = nondet_size(); ASSUME(k < IN_bits || IN_bits == 0);
  @{utils::pushBits|(unsigned long, byte, std::vector<bool> &)}(IN_n, IN_bits, &a); @{utils::pushBits|(std::vector<bool> &, unsigned long, size_t)}(&b, IN_n, IN_bits);
  REACH("pushed"); ASSERT(a.n == IN_bits && b.n == IN_bits, "as many bits as asked");
  if (IN_bits) ASSERT(a.d[k] == ((IN_n >> (IN_bits - 1 - k)) & 1) && b.d[k] == a.d[k], "most significant first");
}""", defines="#define VP_VEC_CAP 72", unwind=66))
    G.append(Group("unary_write", r"""
void harness(void) {
  uint64_t IN_n = nondet_u64(); ASSUME(IN_n >= 1 && IN_n < (1ull << 62)); cnt = 0; W = nondet_u64(); Wb = 0;
  @{utils::unaryCode}((void*)0, IN_n); REACH("coded");
  ASSERT(cnt == IN_n, "n bits"); ASSERT(W >= IN_n || Wb == (W == IN_n - 1), "n-1 zeros and a one");
}""", defines=r"""#include <stdint.h>
#include <stddef.h>
static uint64_t cnt, W; static _Bool Wb;
#define VP_VEC_STRUCT(N, T) struct vec_##N { char c; }; static inline void vec_##N##_push_back(struct vec_##N *v, T x) { if (cnt == W) Wb = x; ++cnt; }
""", loops={"utils::unaryCode": {0: dict(pre="uint64_t N0 = n;", inv=["n <= N0", "N0 >= 1", "(n >= 1 && cnt + n == N0)", "!(W < cnt) || Wb == 0"], havoc="cnt = nondet_u64(); Wb = nondet_bool();", dec="N0 - cnt")}}, unwind=2))
    G.append(Group("unary_read", r"""
static uint64_t N0, p;
static _Bool vp_readBit(void *in) { ASSERT(p < N0, "reader stays inside the code"); _Bool b = p == N0 - 1; ++p; return b; }
void harness(void) {
  uint64_t IN_n = nondet_u64(); ASSUME(IN_n >= 1 && IN_n < (1ull << 62)); N0 = IN_n; p = 0;
  uint64_t m = @{utils::unaryDecode}((void*)0); REACH("decoded"); ASSERT(m == IN_n && p == IN_n, "value survives and exactly the code is consumed");
}""", pre="static uint64_t N0, p; static _Bool vp_readBit(void*);", stubs=RB, loops={"utils::unaryDecode": {0: dict(inv=["n >= 1", "n <= N0", "p == n - 1"], havoc="p = nondet_u64();", dec="N0 - n")}}, unwind=2))
    G.append(Group("run_length_code", r"""
void harness(void) {
  uint32_t IN_x = nondet_u32(); uint32_t IN_w = nondet_u8(); ASSUME(IN_x > 0 && IN_w < 16); struct vec_Bool bv; bv.n = 0;
  @{bwtc::WaveletTree<std::vector<bool>>::fixedIntegerCode}(&bv, IN_x, IN_w); REACH("coded");
  ASSERT(@{bwtc::WaveletTree<std::vector<bool>>::lengthOfFixedCode}(IN_x, IN_w) == bv.n, "reported length is the number of bits");
  /* reader: the decoding rule of the format */
  size_t ones = 0, p = 0; while (p < bv.n && bv.d[p]) { ++ones; ++p; } ASSERT(p < bv.n, "the leading ones are terminated"); ++p;
  uint64_t y = 0; for (size_t k = 0; k < ones + IN_w; ++k) { ASSERT(p < bv.n, "the second part is complete"); y = (y << 1) | bv.d[p++]; }
  ASSERT(p == bv.n, "no bits beyond the code"); ASSERT(y + @{bwtc::WaveletTree<std::vector<bool>>::fixedIntegerCodeTranslation}(ones, IN_w) == IN_x, "value survives");
}""", defines="#define VP_VEC_CAP 90", unwind=70, timeout=400))
    G.append(Group("gamma_code", r"""
void harness(void) {
  uint64_t IN_x = nondet_u64(); ASSUME(IN_x > 0); struct vec_Bool bv; bv.n = 0;
  @{bwtc::WaveletTree<std::vector<bool>>::gammaCode}(&bv, IN_x); REACH("coded");
  size_t ones = 0, p = 0; while (p < bv.n && bv.d[p]) { ++ones; ++p; } ASSERT(p < bv.n, "the leading ones are terminated"); ++p;
  uint64_t y = 1; for (size_t k = 0; k < ones; ++k) { ASSERT(p < bv.n, "the second part is complete"); y = (y << 1) | bv.d[p++]; }
  ASSERT(p == bv.n && y == IN_x, "value survives and nothing follows");
}""", defines="#define VP_VEC_CAP 130", unwind=66, timeout=400))
    for nm, ty, mx, cty in (("bytes", "unsigned char", "255ull", "uint8_t"), ("words", "unsigned int", "0xffffull" if tier == "quick" else "0xffffffffull", "uint32_t")):
        st = {"utils::binaryCode": "c_binaryCode", "utils::binaryDecode": "c_binaryDecode"}
        stub = dict(st)
        stub["utils::binaryInterpolativeCode#rec"] = "c_code"
        stub["utils::binaryInterpolativeDecode#rec"] = "c_decode"
        G.append(Group("interpolative_" + nm, INTERP_H % dict(ty=ty), pre=INTERP % dict(maxv=mx), defines=GHOSTVEC, stubs=stub,
                       loops={"utils::binaryInterpolativeDecode": {0: dict(pre="uint64_t n0 = next_out;", inv=["i >= lo && i <= hi + 1", "next_out == n0 + (i - lo)", "(%s)i == b" % cty, "n0 == B && n0 + (hi - lo) == E"],
                                                                           havoc="next_out = nondet_u64();", dec="hi + 1 - i")}}, unwind=9, timeout=850, flags=("--sat-solver", "cadical")))
    return G
