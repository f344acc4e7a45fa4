from cbmc import Group
from check import Native
import tape

LEVEL = "proof"
EXTRA_TU = """
namespace bwtc { struct VpBits { bool readBit(); }; struct VpVec { void push_back(bool); }; }
namespace utils {
template size_t readPackedIntegerRev<bwtc::VpBits>(bwtc::VpBits&, size_t&);
template size_t readPackedInteger<bwtc::VpBits>(bwtc::VpBits&, size_t&);
template void pushBitsRev<bwtc::VpVec, size_t>(bwtc::VpVec&, size_t, size_t);
}
"""
EXPLANATION = ("Every packed-integer writer is composed with the reader that consumes its bytes in the format; the value is a "
               "free 64-bit variable (below 2^56 where the packed form is a 64-bit word, the stated limit of the code), every loop is "
               "unrolled to its width bound with the unwinding assertion discharged, so the result holds for all values.")
TRUSTED = ["OutStream/InStream interface contract (checked for the concrete streams in C04/C05)"]
ASSUMPTIONS = ["packInteger is used for values below 2^56 only (its own assertion)"]
NATIVE = Native("c01.cpp", seconds=5, thorough_seconds=60,
                bound="random and boundary values of every bit length 0..64 (0..55 for the word form)")

CANON = r"""
static unsigned vlen(uint64_t x) { unsigned n = 1; for (int i = 0; i < 9; ++i) { x >>= 7; if (x) ++n; } return n; }
"""


def groups(tier):
    G = []
    G.append(Group("pack_unpack_word", CANON + r"""
void harness(void) {
  uint64_t IN_x = nondet_u64(); ASSUME(IN_x < (1ull << 56));
  int n = -1; uint64_t p = @{utils::packInteger}(IN_x, &n);
  REACH("word packed");
  ASSERT(n == (int)vlen(IN_x), "packed length is the minimal number of 7-bit groups (at least one)");
  ASSERT(n == 8 || (p >> (8*n)) == 0, "packed word fits its announced byte count");
  ASSERT(IN_x < 128 || (p >> (8*(n-1))) != 0, "last packed byte of a multi-byte value is non-zero");
  for (int i = 0; i < 8; ++i) if (i < n) ASSERT((((p >> (8*i)) & 0x80) != 0) == (i < n-1), "continuation bit set on all bytes but the last");
  ASSERT(@{utils::unpackInteger}(p) == IN_x, "unpackInteger inverts packInteger");
}""", unwind=11))
    G.append(Group("packAndWrite_readAndUnpack", CANON + r"""
void harness(void) {
  uint64_t IN_x = nondet_u64(); uint8_t buf[10]; for (int i = 0; i < 10; ++i) buf[i] = nondet_u8();
  unsigned n = @{utils::packAndWriteInteger}(IN_x, buf);
  REACH("written");
  ASSERT(n == vlen(IN_x), "bytes written is the minimal number of 7-bit groups");
  uint64_t y = nondet_u64(); unsigned m = @{utils::readAndUnpackInteger}(buf, &y);
  ASSERT(m == n, "reader consumes exactly what the writer produced");
  ASSERT(y == IN_x, "value survives");
}""", unwind=11))
    G.append(Group("packed_word_byte_array", CANON + r"""
void harness(void) {
  uint64_t IN_x = nondet_u64(); ASSUME(IN_x < (1ull << 56));
  uint8_t buf[9]; for (int i = 0; i < 9; ++i) buf[i] = nondet_u8();
  int n; uint64_t p = @{utils::packInteger}(IN_x, &n);
  uint8_t guard = n < 9 ? buf[n] : 0;
  @{utils::writePackedInteger|byte *}(p, buf);
  REACH("written");
  ASSERT(n >= 9 || buf[n] == guard, "writer stays inside the announced length");
  ASSERT(@{utils::unpackInteger}(@{utils::readPackedInteger|(byte *)}(buf)) == IN_x, "value survives the byte array");
}""", unwind=11))
    for nm, e, d in (("wavelet", "bwtc::WaveletEncoder", "bwtc::WaveletDecoder"), ("huffman", "bwtc::HuffmanEncoder", "bwtc::HuffmanDecoder")):
        G.append(Group("stream_%s_coder" % nm, CANON + r"""
void harness(void) {
  uint64_t IN_x = nondet_u64(); ASSUME(IN_x < (1ull << 56));
  int n; uint64_t p = @{utils::packInteger}(IN_x, &n);
  @{%s::writePackedInteger}((void*)0, p, (void*)0);
  REACH("written");
  ASSERT(tape_w == (size_t)n, "encoder writes exactly the announced number of bytes");
  uint64_t q = @{%s::readPackedInteger}((void*)0, (void*)0);
  ASSERT(tape_r == tape_w, "decoder consumes exactly what the encoder wrote");
  ASSERT(@{utils::unpackInteger}(q) == IN_x, "value survives the stream");
}""" % (e, d), pre=tape.pre(12), stubs=tape.STUBS, unwind=11))
    G.append(Group("bits_msb_first", r"""
void harness(void) {
  uint64_t IN_x = nondet_u64(); ASSUME(IN_x < (1ull << 56));
  int n; uint64_t p = @{utils::packInteger}(IN_x, &n);
  for (int i = 0; i < 8; ++i) if (i < n) tape_writeByte(0, (uint8_t)(p >> (8*i)));
  size_t br = nondet_size();
  uint64_t y = @{utils::readPackedInteger|(bwtc::InStream &, size_t &)}(0, &br);
  REACH("read");
  ASSERT(br == (size_t)n && tape_r == tape_w && tape_bits == 0, "reader consumes exactly the packed bytes");
  ASSERT(y == IN_x, "value survives (most significant bit first)");
}""", pre=tape.pre(12), stubs=tape.STUBS, unwind=11))
    G.append(Group("bits_lsb_first", r"""
static _Bool BV[72]; static size_t bw, brd;
static void vp_pb(void *v, _Bool b) { ASSERT(bw < 72, "model: bit capacity"); BV[bw++] = b; }
static _Bool vp_rb(void *v) { ASSERT(brd < bw, "reader stays inside what the writer wrote"); return brd < 72 ? BV[brd++] : 0; }
void harness(void) {
  uint64_t IN_x = nondet_u64(); ASSUME(IN_x < (1ull << 56));
  int n; uint64_t p = @{utils::packInteger}(IN_x, &n);
  @{utils::pushBitsRev|VpVec}((void*)0, p, 8*n);
  ASSERT(bw == (size_t)(8*n), "eight bits per packed byte");
  size_t k = nondet_size();
  uint64_t y = @{utils::readPackedIntegerRev|VpBits}((void*)0, &k);
  REACH("read");
  ASSERT(k == (size_t)n && brd == bw, "reader consumes exactly the packed bits");
  ASSERT(y == IN_x, "value survives (least significant bit first)");
}""", pre="static void vp_pb(void*, _Bool); static _Bool vp_rb(void*);\n",
                   stubs={"bwtc::VpVec::push_back": "vp_pb", "bwtc::VpBits::readBit": "vp_rb"}, unwind=66))
    return G
