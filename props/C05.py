from cbmc import Group
from check import Native

LEVEL = "proof"
EXPLANATION = ("Every operation of the buffered input stream is checked against an abstract byte sequence from every reachable state (any file length and "
               "position, any fill of the 64 KB buffer, any bit offset), with one arbitrary watched position standing for all: bytes and bits come out in order, "
               "once each, and the end is reported exactly when the data is exhausted.")
TRUSTED = ["fread through its contract: returns min(count, remaining) bytes of the file in order; feof is set only after a short read", "no I/O errors"]
ASSUMPTIONS = ["constructor and file opening are outside the extractor (std::string) and covered by the native stand-in"]
NATIVE = Native("c05.cpp", seconds=6, thorough_seconds=90, cxx=("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"),
                bound="random read sequences (bytes, bits, blocks, 48-bit words) on real files up to 200 KB, sizes around multiples of 64 KB")

PRE = r"""
#define CAP 65536u
static uint64_t N, f_pos, W; static uint8_t Fw; static _Bool eof_set;  /* file length, position, watched offset and its byte */
static size_t vp_fread(void *p, size_t sz, size_t n, struct vp_FILE *f) {
  ASSERT(sz == 1, "byte-wise read"); ASSERT(__CPROVER_w_ok(p, n), "buffer holds the requested bytes");
  size_t r = N - f_pos < n ? (size_t)(N - f_pos) : n; __CPROVER_havoc_object(p);
  if (W >= f_pos && W - f_pos < r) ((uint8_t*)p)[W - f_pos] = Fw;
  f_pos += r; if (r < n) eof_set = 1; return r; }
static int vp_feof(struct vp_FILE *f) { return eof_set; }
"""
COMMON = r"""
typedef @T{bwtc::RawInStream} S;
static S s; static uint64_t C; static uint32_t K;    /* consumed bytes, unread bits of the last one */
#define CONS (f_pos - (uint64_t)(s.m_bigbuf_left > 0 ? s.m_bigbuf_left : 0))
static _Bool inv(void) { return f_pos <= N && s.m_bigbuf_left >= 0 && s.m_bigbuf_left <= (int32_t)CAP && s.m_bigbuf_pos <= CAP && s.m_bigbuf_pos + (uint32_t)s.m_bigbuf_left <= CAP
  && (uint64_t)s.m_bigbuf_left <= f_pos && (!eof_set || f_pos == N)
  && (!(W >= CONS && W < f_pos) || s.m_bigbuf[s.m_bigbuf_pos + (W - CONS)] == Fw); }
static _Bool bits_ok(void) { return s.m_bitsInBuffer < 8 && (s.m_bitsInBuffer == 0 || (CONS >= 1 && (W != CONS - 1 || ((s.m_buffer ^ Fw) & ((1u << s.m_bitsInBuffer) - 1)) == 0))); }
static void any_state(void) {
  s.m_bigbuf = malloc(CAP); ASSUME(s.m_bigbuf != 0); N = nondet_u64(); ASSUME(N < (1ull << 60)); f_pos = nondet_u64(); W = nondet_u64(); Fw = nondet_u8(); eof_set = nondet_bool();
  ASSUME(W < N); s.m_bigbuf_left = nondet_i32(); s.m_bigbuf_pos = nondet_u32(); s.m_buffer = nondet_u16(); s.m_bitsInBuffer = nondet_u8();
  ASSUME(inv()); ASSUME(bits_ok()); C = CONS; K = s.m_bitsInBuffer; }
static void ok(void) { ASSERT(inv(), "stream invariant preserved"); ASSERT(bits_ok(), "bit buffer invariant preserved"); }
"""
# contract of fetchByte, proved in group fetchByte
FETCH = r"""
static uint64_t N, W, G; static uint8_t Fw;  /* file length, watched offset, its byte; G: bytes consumed so far */
static int32_t fetch_contract(void *self) { if (G >= N) return -1; int32_t r = G == W ? Fw : nondet_u8(); ++G; return r; }
"""


def groups(tier):
    G = []
    def add(name, body):
        G.append(Group(name, COMMON + body, pre=PRE, unwind=8, flags=("--arrays-uf-always",), timeout=300))
    add("fetchByte", r"""
void harness(void) { any_state(); int32_t r = @{bwtc::RawInStream::fetchByte}(&s); REACH("fetched");
  ASSERT(inv(), "stream invariant preserved"); ASSERT(s.m_bitsInBuffer == K, "bit offset untouched");
  if (C < N) { ASSERT(r >= 0 && r <= 255 && CONS == C + 1, "one byte is consumed while data remains"); ASSERT(C != W || r == Fw, "bytes come out in file order"); }
  else { ASSERT(r == -1 && CONS == C, "end is reported exactly when the data is exhausted"); } REACH("end"); }""")
    add("peekByte", r"""
void harness(void) { any_state(); int32_t r = @{bwtc::RawInStream::peekByte}(&s); REACH("peeked"); ASSERT(inv() && CONS == C, "peeking consumes nothing");
  if (C < N) { ASSERT(r >= 0 && r <= 255, "peek sees the next byte"); ASSERT(C != W || r == Fw, "peek sees the next byte's value"); } else ASSERT(r == -1, "peek reports the end"); }""")
    add("readBit", r"""
void harness(void) { any_state(); ASSUME(K > 0 || C < N); uint64_t P = 8*C - K;
  _Bool b = @{bwtc::RawInStream::readBit}(&s); REACH("read"); ok();
  ASSERT(8*CONS - s.m_bitsInBuffer == P + 1, "one bit is consumed"); ASSERT(P / 8 != W || b == ((Fw >> (7 - P % 8)) & 1), "bits come out most significant first"); }""")
    add("readByte", r"""
void harness(void) { any_state(); ASSUME(C < N); uint8_t r = @{bwtc::RawInStream::readByte}(&s); REACH("read"); ok();
  ASSERT(CONS == C + 1 && s.m_bitsInBuffer == K, "eight bits are consumed");
  ASSERT(K == 0 || C == 0 || W != C - 1 || (r >> (8 - K)) == (Fw & ((1u << K) - 1)), "the unread bits of the previous byte come first");
  ASSERT(W != C || (r & ((1u << (8 - K)) - 1)) == (Fw >> K), "then the leading bits of the next byte"); }""")
    add("flushBuffer", r"""
void harness(void) { any_state(); @{bwtc::RawInStream::flushBuffer}(&s); REACH("flushed"); ok(); ASSERT(CONS == C && s.m_bitsInBuffer == 0, "only the unread bits are dropped"); }""")
    add("compressedDataEnding", r"""
void harness(void) { any_state(); _Bool e = @{bwtc::RawInStream::compressedDataEnding}(&s); REACH("asked"); ASSERT(inv() && CONS == C, "asking consumes nothing");
  ASSERT(!e || N - C <= 1, "never reports the end while more than one byte remains"); ASSERT(e || C < N, "reports the end when nothing remains"); }""")
    G.append(Group("readBlock", r"""
static uint64_t G0; static uint8_t *g_to;
void harness(void) {
  @T{bwtc::RawInStream} s; s.m_bitsInBuffer = 0; N = nondet_u64(); W = nondet_u64(); Fw = nondet_u8(); G = G0 = nondet_u64(); ASSUME(N < (1ull<<62) && W < N && G <= N);
  uint64_t IN_max = nondet_u64(); ASSUME(IN_max < (1ull << 40)); uint8_t *to = malloc(IN_max + 1); ASSUME(to != 0); g_to = to;
  size_t r = @{bwtc::RawInStream::readBlock}(&s, to, IN_max);
  REACH("read");
  ASSERT(r == (N - G0 < IN_max ? N - G0 : IN_max), "reads min(limit, remaining) bytes"); ASSERT(G == G0 + r, "consumes what it returns");
  ASSERT(!(W >= G0 && W < G0 + r) || to[W - G0] == Fw, "the block holds the file bytes in order"); }""",
        pre=FETCH + "static uint64_t G0; static uint8_t *g_to;\n", stubs={"bwtc::RawInStream::fetchByte": "fetch_contract"},
        loops={"bwtc::RawInStream::readBlock": {0: dict(
            inv=["have_read <= max_block_size", "G == G0 + have_read", "G <= N", "!(W >= G0 && W < G) || to[W - G0] == Fw"],
            havoc="G = nondet_u64(); __CPROVER_havoc_object(to);", frame=["to"], dec="max_block_size - have_read")}},
        unwind=4, flags=("--arrays-uf-always",)))
    G.append(Group("read48bits", r"""
void harness(void) { @T{bwtc::RawInStream} s; N = nondet_u64(); W = nondet_u64(); Fw = nondet_u8(); G = nondet_u64(); ASSUME(N < (1ull<<62) && W < N && G <= N && N - G >= 6); uint64_t g = G;
  uint64_t r = @{bwtc::RawInStream::read48bits}(&s); REACH("read"); ASSERT(G == g + 6, "six bytes are consumed"); ASSERT(r < (1ull << 48), "a 48-bit value");
  ASSERT(!(W >= g && W < g + 6) || (uint8_t)(r >> (8 * (5 - (W - g)))) == Fw, "most significant byte first"); }""",
        pre=FETCH, stubs={"bwtc::RawInStream::fetchByte": "fetch_contract"}, unwind=8))
    return G
