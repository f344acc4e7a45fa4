"""Contract stubs of the stream interfaces, shared by the CBMC groups.

OutStream / InStream are abstract classes; callers are checked against these contracts
(one byte tape, bytes written in order are read back in order, bits most significant
first).  The concrete RawOutStream / RawInStream are checked against them in C04 / C05."""
STUBS = {
    "bwtc::OutStream::writeByte": "tape_writeByte",
    "bwtc::OutStream::flush": "tape_flush",
    "bwtc::InStream::readByte": "tape_readByte",
    "bwtc::InStream::readBit": "tape_readBit",
    "bwtc::InStream::flushBuffer": "tape_flushBuffer",
}


def pre(cap):
    return r"""
#define TAPE_CAP %d
static uint8_t TAPE[TAPE_CAP]; static size_t tape_w, tape_r; static uint32_t tape_bits; static uint16_t tape_buf;
static inline void tape_writeByte(void *o, uint8_t b) { ASSERT(tape_w < TAPE_CAP, "model: tape capacity"); TAPE[tape_w++] = b; }
static inline void tape_flush(void *o) {}
static inline uint8_t tape_next(void) { ASSERT(tape_r < tape_w, "reader stays inside what the writer wrote"); return tape_r < TAPE_CAP ? TAPE[tape_r++] : 0; }
static inline uint8_t tape_readByte(void *o) { uint8_t n = tape_next(); tape_buf = (uint16_t)((tape_buf << 8) | n); return (uint8_t)(tape_buf >> tape_bits); }
static inline _Bool tape_readBit(void *o) { if (tape_bits == 0) { tape_buf = tape_next(); tape_bits = 8; } return (tape_buf >> --tape_bits) & 1; }
static inline void tape_flushBuffer(void *o) { tape_bits = 0; }
""" % cap
