from cbmc import Group
from check import Native

LEVEL = "proof"
EXPLANATION = ("Every operation of the buffered output stream is checked against an abstract byte sequence, from every state of the stream (any file "
               "length, any fill of the 64 KB buffer), with one arbitrary watched position standing for all positions: appends append, nothing "
               "already written changes, back-patching replaces exactly six bytes, and the reported position is the sequence length.  Sequences of operations "
               "of any length follow by induction.")
TRUSTED = ["libc file functions through their contract: fwrite/fputc write at the file position and advance it, fseek sets it, ftell reports it; regular "
           "seekable file, no I/O errors", "std::copy through its contract"]
ASSUMPTIONS = ["constructor and file opening are outside the extractor (std::string) and covered by the native stand-in",
               "write errors (full disk) are not modelled: the code does not check them",
               "on a pipe the back-patching of lengths cannot work (known finding of C15)"]
NATIVE = Native("c04.cpp", seconds=6, thorough_seconds=90, cxx=("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"),
                bound="random operation sequences on real files, up to 400 KB per file, block sizes around the 64 KB buffer boundary")

PRE = r"""
#define CAP 65536u
/* file: length, position, and the byte at one arbitrary watched offset */
static uint64_t f_len, f_pos, W; static uint8_t f_w; static int f_closed;
static size_t vp_fwrite(const void *p, size_t sz, size_t n, struct vp_FILE *f) {
  ASSERT(sz == 1, "byte-wise write"); ASSERT(n == 0 || __CPROVER_r_ok(p, n), "written range is readable"); ASSERT(!f_closed, "file is open");
  if (W >= f_pos && W - f_pos < n) f_w = ((const uint8_t*)p)[W - f_pos];
  f_pos += n; if (f_pos > f_len) f_len = f_pos; return n; }
static int vp_fputc(int c, struct vp_FILE *f) { ASSERT(!f_closed, "file is open"); if (W == f_pos) f_w = (uint8_t)c; ++f_pos; if (f_pos > f_len) f_len = f_pos; return (uint8_t)c; }
static int vp_fflush(struct vp_FILE *f) { return 0; }
static int vp_fclose(struct vp_FILE *f) { f_closed = 1; return 0; }
static int64_t vp_ftell(struct vp_FILE *f) { return (int64_t)f_pos; }
static int vp_fseek(struct vp_FILE *f, int64_t off, int wh) { ASSERT(off >= 0, "seek inside the file");
  f_pos = wh == 0 ? (uint64_t)off : wh == 1 ? f_pos + (uint64_t)off : f_len + (uint64_t)off; return 0; }
static uint8_t *g_buf;   /* the stream's buffer */
static void vp_copy_uint8_t(const uint8_t *b, const uint8_t *e, uint8_t *d) {
  size_t n = (size_t)(e - b); ASSERT(b <= e, "ordered range"); ASSERT(n == 0 || (__CPROVER_r_ok(b, n) && __CPROVER_w_ok(d, n)), "copy stays inside both objects");
  ASSERT(__CPROVER_POINTER_OBJECT(d) == __CPROVER_POINTER_OBJECT(g_buf), "model: copy into the stream buffer");
  size_t off = (size_t)(d - g_buf);
  if (W >= f_len && W - f_len >= off && W - f_len < off + n) g_buf[W - f_len] = b[W - f_len - off]; }
"""
COMMON = r"""
typedef @T{bwtc::RawOutStream} S;
static S s; static uint64_t L; static uint8_t V;   /* abstract sequence: length, byte at W */
static uint8_t cur(void) { return W < f_len ? f_w : s.m_buffer[W - f_len]; }
static void any_state(void) {
  s.m_buffer = malloc(CAP); ASSUME(s.m_buffer != 0); g_buf = s.m_buffer; s.m_fileptr = (struct vp_FILE*)(uintptr_t)1;
  f_len = nondet_u64(); ASSUME(f_len < (1ull << 62)); f_pos = f_len; W = nondet_u64(); f_w = nondet_u8();
  uint32_t IN_filled = nondet_u32(); ASSUME(IN_filled < CAP); s.m_filled = IN_filled; L = f_len + IN_filled;
  V = W < L ? cur() : 0; }
static void ok(void) { ASSERT(s.m_filled < CAP && s.m_buffer == g_buf && f_pos == f_len, "stream invariant: buffer not full, file position at the end"); }
#define LEN (f_len + s.m_filled)
"""


def groups(tier):
    G = []
    def add(name, body):
        G.append(Group(name, COMMON + body, pre=PRE, unwind=8, flags=("--arrays-uf-always",), timeout=300))
    add("writeByte", r"""
void harness(void) { any_state(); uint8_t b = nondet_u8();
  @{bwtc::RawOutStream::writeByte}(&s, b); REACH("written"); ok();
  ASSERT(LEN == L + 1, "one byte appended"); ASSERT(!(W < L) || cur() == V, "earlier bytes unchanged"); ASSERT(W != L || cur() == b, "the byte is appended"); }""")
    add("writeBlock", r"""
void harness(void) { any_state(); uint64_t IN_n = nondet_u64(); ASSUME(IN_n < (1ull << 40));
  uint8_t *blk = malloc(IN_n + 1); ASSUME(blk != 0); uint64_t k = nondet_u64(); ASSUME(k < IN_n || IN_n == 0);
  uint8_t x = W >= L && W - L < IN_n ? blk[W - L] : 0;
  @{bwtc::RawOutStream::writeBlock}(&s, blk, blk + IN_n); REACH("written"); ok();
  ASSERT(LEN == L + IN_n, "the block is appended"); ASSERT(!(W < L) || cur() == V, "earlier bytes unchanged");
  ASSERT(!(W >= L && W - L < IN_n) || cur() == x, "the block's bytes are appended in order"); }""")
    add("flush_getPos", r"""
void harness(void) { any_state(); _Bool IN_pos = nondet_bool(); 
  if (IN_pos) { int64_t p = @{bwtc::RawOutStream::getPos}(&s); ASSERT(p >= 0 && (uint64_t)p == L, "position is the number of bytes written"); } else @{bwtc::RawOutStream::flush}(&s);
  REACH("flushed"); ok();
  ASSERT(LEN == L && f_len == L, "everything is in the file"); ASSERT(!(W < L) || (f_w == V), "bytes unchanged"); }""")
    add("write48bits", r"""
void harness(void) { any_state(); uint64_t IN_v = nondet_u64(); int64_t IN_at = nondet_i64(); ASSUME(IN_v < (1ull << 48)); ASSUME(IN_at >= 0 && (uint64_t)IN_at + 6 <= L);
  @{bwtc::RawOutStream::write48bits}(&s, IN_v, IN_at); REACH("patched"); ok();
  ASSERT(LEN == L, "length unchanged");
  if (W < L && (W < (uint64_t)IN_at || W >= (uint64_t)IN_at + 6)) ASSERT(cur() == V, "bytes outside the six are unchanged");
  if (W >= (uint64_t)IN_at && W < (uint64_t)IN_at + 6) ASSERT(cur() == (uint8_t)(IN_v >> (8 * (5 - (W - (uint64_t)IN_at)))), "the six bytes hold the value, most significant first"); }""")
    add("destructor", r"""
void harness(void) { any_state(); _Bool IN_std = nondet_bool(); vp_stdout = IN_std ? s.m_fileptr : (struct vp_FILE*)(uintptr_t)2;
  @{bwtc::RawOutStream::~RawOutStream}(&s); REACH("destroyed");
  ASSERT(f_len == L, "all bytes reach the file on destruction"); ASSERT(!(W < L) || f_w == V, "bytes unchanged"); ASSERT(f_closed == !IN_std, "file closed, standard output left open"); }""")
    return G
