from cbmc import Group
from check import Native
LEVEL = "proof"
EXPLANATION = ("The groups named after another property (cNN_*) are the contracts this composition rests on, discharged again here; the slowest of them run with their own property only (LEFT). Block loops, for every number of blocks and slices and every memory limit from 24 bytes to 2^44: the compressor writes the coder, then for every block its header and every slice once and in order with a slice size from 1 to 2^31-3, then the closing header (compress); the decompressor reads the same sequence, puts every slice after the one before, undoes the transform and expands each block once (decompress). "
               "Encoder and decoder of the same kind and model are chosen for every coder letter (coders). Wavelet and Huffman encoders and decoders handle every section once, in order, in the same field order, models reset between sections (wavelet_*, huffman_*, end_*). Huffman payload: every bit of every symbol code and run-length code is in its place in the stream for all runs below 2^31 (huffman_encode); the decoder reads back every run length and expands every run to its place (huffman_decode). "
               "Composition with the contracts of C01-C14 and C16 gives the round trip; the round trip of the tools themselves is run natively.")
TRUSTED = ["contracts of the parts are those proved in C01-C14, C16 (packed integers, streams, headers, transform, pair replacement, code lengths, trees)", "std::vector, std::fill, std::accumulate, std::min, new/delete through their contracts", "double arithmetic of the slice sizes as IEEE double (bit-precise in the verifier)"]
ASSUMPTIONS = ["contract of the table-driven symbol loop of HuffmanDecoder::decodeBlock (it stores the symbol of every run): abstracted in the proof, exercised natively, not proved", "memory limit at least 24 bytes and below 2^44; blocks shrink or stay the same in preprocessing (C10, C12)", "main() of the tools (option parsing, file opening): exercised natively, not proved", "code lengths below 48, runs below 2^31"]
NATIVE = Native("c15.cpp", seconds=20, thorough_seconds=240, cxx=("-O2", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=alignment"), link=("-lboost_program_options",), bound="files of 0 to a few hundred kB (quick) of several kinds, every coder, sorter, preprocessing string and 1 to 256 starting points, memory limits down to a few dozen bytes; tools run as separate processes in a scratch directory")
UF = ("--arrays-uf-always",)
CAD = ("--sat-solver", "cadical")


VDEF = r"""#include <stdint.h>
#include <stddef.h>
#define VP_VEC_STRUCT(N, T) struct vec_##N { T *d; size_t n; }; static inline void vec_##N##_ctor(struct vec_##N *v) { v->n = 0; } static inline T *vec_##N##_at(const struct vec_##N *v, size_t i) { __CPROVER_assert(i < v->n, "vector index in bounds"); return v->d + i; } \
static inline size_t vec_##N##_size(const struct vec_##N *v) { return v->n; } static inline T *vec_##N##_begin(const struct vec_##N *v) { return v->d; } static inline T *vec_##N##_end(const struct vec_##N *v) { return v->d + v->n; } static inline void vec_##N##_ctor_fill(struct vec_##N *v, size_t n, T x) { static T st_##N[256]; v->d = st_##N; v->n = n; __CPROVER_array_set(v->d, x); }
"""


import importlib
PARTS = {c: importlib.import_module(c) for c in ("C03", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16")}
LEFT = {"C11": ("pair_numbers", "pair_numbers_onto"), "C14": ("lengths_merge", "lengths_depth", "lengths_level")}
LEFT["C12"] = ["replace_in_place_content_plain", "replace_in_place_content_variable", "replace_in_place_content_special", "replace_in_place_memory", "buffer"] + ["replace_in_place_positions_" + x for x in ("plain", "variable", "special")] + ["buffer_size_%d" % k for k in range(64)]
EXTRA_TU = globals().get("EXTRA_TU", "") + "".join(getattr(m, "EXTRA_TU", "").replace("vpInst", "vpInst" + c) for c, m in PARTS.items())


def groups(tier):
    G = []
    # block loop of the compressor, against the contracts of its parts
    CP = r"""
static @T{bwtc::Compressor} C; static @T{bwtc::PrecompressorBlock} PB; static @T{bwtc::BWTBlock} SL; static int out, in, enc, st; static uint64_t OS, SZ, NS, cur, sum, LIM, blocks; static uint64_t PB0;
static @T{bwtc::PrecompressorBlock} *c_read(const @T{bwtc::Precompressor} *p, size_t n, @T{bwtc::InStream} *i); static size_t c_os(const @T{bwtc::PrecompressorBlock} *p); static size_t c_sz(const @T{bwtc::PrecompressorBlock} *p); static size_t c_ns(const @T{bwtc::PrecompressorBlock} *p); static void c_cut(@T{bwtc::PrecompressorBlock} *p, size_t n); static size_t c_head(const @T{bwtc::PrecompressorBlock} *p, @T{bwtc::OutStream} *o, int m); static @T{bwtc::BWTBlock} *c_slice(@T{bwtc::PrecompressorBlock} *p, int i);
static size_t c_enc(@T{bwtc::EntropyEncoder} *e, @T{bwtc::BWTBlock} *b, @T{bwtc::BWTManager} *m, @T{bwtc::OutStream} *o); static size_t c_empty(@T{bwtc::OutStream} *o); static void c_byte(@T{bwtc::OutStream} *o, uint8_t b); static struct vp_str *c_opt(@T{bwtc::Precompressor} *p);
"""
    CH = r"""
static @T{bwtc::PrecompressorBlock} *c_read(const @T{bwtc::Precompressor} *p, size_t n, @T{bwtc::InStream} *i) { ASSERT(p == &C.m_precompressor && i == C.m_in && st == 1, "next block, after the last one is complete"); ASSERT(n >= 1, "blocks are not empty"); OS = nondet_u64(); SZ = nondet_u64(); /* C09, C10, C12 */ ASSUME(OS <= n && SZ <= OS && (OS == 0) == (SZ == 0)); st = OS ? 2 : 6; return &PB; }
static size_t c_os(const @T{bwtc::PrecompressorBlock} *p) { ASSERT(p == &PB, "this block"); return OS; }
static size_t c_sz(const @T{bwtc::PrecompressorBlock} *p) { ASSERT(p == &PB, "this block"); return SZ; }
static size_t c_ns(const @T{bwtc::PrecompressorBlock} *p) { ASSERT(p == &PB && (st >= 3 || (st == 1 && cur == NS)), "slices of the block"); return NS; }
static void c_cut(@T{bwtc::PrecompressorBlock} *p, size_t n) { ASSERT(p == &PB && st == 2, "the block is cut once"); ASSERT(n >= 1 && n <= 0x7ffffffd, "slices are not empty and fit the sorters"); if (n != PB0) REACH("slices smaller than the block"); NS = nondet_u64(); ASSUME(NS >= 1 && NS < 0x7fffffff); st = 3; }
static size_t c_head(const @T{bwtc::PrecompressorBlock} *p, @T{bwtc::OutStream} *o, int m) { ASSERT(p == &PB && o == C.m_out && st == 3, "one header, before the slices"); st = 4; cur = 0; uint64_t r = nondet_u64(); sum += r; return r; }
static @T{bwtc::BWTBlock} *c_slice(@T{bwtc::PrecompressorBlock} *p, int i) { ASSERT(p == &PB && st == 4 && i >= 0 && (uint64_t)i == cur && cur < NS, "every slice once, in order"); return &SL; }
static size_t c_enc(@T{bwtc::EntropyEncoder} *e, @T{bwtc::BWTBlock} *b, @T{bwtc::BWTManager} *m, @T{bwtc::OutStream} *o) { ASSERT(e == C.m_coder && b == &SL && m == &C.m_bwtmanager && o == C.m_out && st == 4 && cur < NS, "slice encoded into the stream"); if (++cur == NS) st = 1; uint64_t r = nondet_u64(); sum += r; return r; }
static size_t c_empty(@T{bwtc::OutStream} *o) { ASSERT(o == C.m_out && st == 6, "the stream is closed after the last block"); st = 7; uint64_t r = nondet_u64(); sum += r; return r; }
static void c_byte(@T{bwtc::OutStream} *o, uint8_t b) { ASSERT(o == C.m_out && st == 0 && b == (uint8_t)C.m_options.entropyCoder, "coder first"); st = 1; sum = 1; }
void harness(void) { __CPROVER_havoc_object(&C); C.m_out = (void*)&out; C.m_in = (void*)&in; C.m_coder = (void*)&enc; LIM = C.m_options.memLimit = nondet_u64(); ASSUME(LIM >= 24 && LIM < ((uint64_t)1 << 44)); C.m_options.entropyCoder = nondet_u8();
  uint64_t r = @{bwtc::Compressor::compress}(&C, 1); REACH("compressed"); ASSERT(st == 7, "stream complete"); ASSERT(r == sum, "reported size is what the parts reported"); }
"""
    G.append(Group("compress", CH, pre=CP, stubs={"bwtc::Precompressor::readBlock": "c_read", "bwtc::PrecompressorBlock::originalSize": "c_os", "bwtc::PrecompressorBlock::size": "c_sz", "bwtc::PrecompressorBlock::slices": "c_ns", "bwtc::PrecompressorBlock::sliceIntoBlocks": "c_cut", "bwtc::PrecompressorBlock::writeBlockHeader": "c_head", "bwtc::PrecompressorBlock::getSlice": "c_slice", "bwtc::EntropyEncoder::transformAndEncode": "c_enc", "bwtc::PrecompressorBlock::writeEmptyHeader": "c_empty", "bwtc::OutStream::writeByte": "c_byte"},
        loops={"bwtc::Compressor::compress": {0: dict(inv=["st == 1 && self == &C && compressedSize == sum", "pbBlockSize >= 1 && (pbBlockSize == bwtBlockSize ? pbBlockSize <= 0x7ffffffd : pbBlockSize == PB0)"], pre="PB0 = pbBlockSize;", havoc="st = nondet_u8(); sum = nondet_u64(); OS = nondet_u64(); SZ = nondet_u64(); NS = nondet_u64(); cur = nondet_u64();"), 1: dict(inv=["self == &C && compressedSize == sum && i == cur && i <= NS && st == (i < NS ? 4 : 1) && pb == &PB"], havoc="st = nondet_u8(); sum = nondet_u64(); cur = nondet_u64();", dec="NS - i")}}, unwind=3, flags=CAD, checks=False))
    DP = r"""
static @T{bwtc::Decompressor} D; static @T{bwtc::PrecompressorBlock} PB; static @T{bwtc::BWTBlock} SL; static int out, in, dec, inv, gr, st; static uint8_t coder, *END, MEM[1]; static uint64_t OS, SZ, NS, cur, sum; static uint32_t LEN;
static void *c_inv(void); static uint8_t c_byte(@T{bwtc::InStream} *i); static @T{bwtc::EntropyDecoder} *c_give(char c); static @T{bwtc::PrecompressorBlock} *c_head(@T{bwtc::InStream} *i, int m); static size_t c_os(const @T{bwtc::PrecompressorBlock} *p); static size_t c_sz(const @T{bwtc::PrecompressorBlock} *p); static size_t c_ns(const @T{bwtc::PrecompressorBlock} *p); static @T{bwtc::BWTBlock} *c_slice(@T{bwtc::PrecompressorBlock} *p, int i); static uint8_t *c_end(@T{bwtc::PrecompressorBlock} *p); static uint8_t *c_beg(@T{bwtc::PrecompressorBlock} *p);
static void c_set(@T{bwtc::BWTBlock} *b, uint8_t *p); static uint32_t c_len(const @T{bwtc::BWTBlock} *b); static void c_dec(@T{bwtc::EntropyDecoder} *d, @T{bwtc::BWTBlock} *b, @T{bwtc::InStream} *i); static void c_used(@T{bwtc::PrecompressorBlock} *p, size_t n); static void c_tr(void *t, @T{bwtc::BWTBlock} *b); static void *c_gr(@T{bwtc::PrecompressorBlock} *p); static void c_pp(@T{bwtc::Postprocessor} *p, _Bool v, void *g); static size_t c_post(@T{bwtc::Postprocessor} *p, uint8_t *b, size_t n, @T{bwtc::OutStream} *o);
"""
    DH = r"""
static void *c_inv(void) { return &inv; }
static uint8_t c_byte(@T{bwtc::InStream} *i) { ASSERT(i == D.m_in && st == 0, "coder first"); st = 1; return coder; }
static @T{bwtc::EntropyDecoder} *c_give(char c) { ASSERT(st == 1 && (uint8_t)c == coder, "decoder of the coder that wrote the stream"); st = 2; return (void*)&dec; }
static @T{bwtc::PrecompressorBlock} *c_head(@T{bwtc::InStream} *i, int m) { ASSERT(i == D.m_in && st == 2, "next header, after the last block is complete"); OS = nondet_u64(); NS = nondet_u64(); ASSUME((OS == 0) == (NS == 0) && NS < 0x7fffffff); cur = 0; SZ = 0; st = OS ? 3 : 8; return &PB; }
static size_t c_os(const @T{bwtc::PrecompressorBlock} *p) { ASSERT(p == &PB, "this block"); return OS; }
static size_t c_sz(const @T{bwtc::PrecompressorBlock} *p) { ASSERT(p == &PB && st == 3 && cur == NS, "all slices are in"); return SZ; }
static size_t c_ns(const @T{bwtc::PrecompressorBlock} *p) { ASSERT(p == &PB, "this block"); return NS; }
static @T{bwtc::BWTBlock} *c_slice(@T{bwtc::PrecompressorBlock} *p, int i) { ASSERT(p == &PB && i >= 0 && (uint64_t)i == cur && cur < NS, "every slice once, in order"); return &SL; }
static uint8_t *c_end(@T{bwtc::PrecompressorBlock} *p) { ASSERT(p == &PB && st == 3, "end of the slices before"); return END; }
static uint8_t *c_beg(@T{bwtc::PrecompressorBlock} *p) { ASSERT(p == &PB && cur == NS, "all slices are in"); return MEM; }
static void c_set(@T{bwtc::BWTBlock} *b, uint8_t *p) { ASSERT(b == &SL && p == END && st == 3, "slice starts where the last one ended"); st = 4; }
static void c_dec(@T{bwtc::EntropyDecoder} *d, @T{bwtc::BWTBlock} *b, @T{bwtc::InStream} *i) { ASSERT((void*)d == (void*)&dec && b == &SL && i == D.m_in && st == 4, "slice decoded in place"); st = 5; LEN = nondet_u32(); }
static uint32_t c_len(const @T{bwtc::BWTBlock} *b) { ASSERT(b == &SL && st >= 5, "length known after decoding"); return LEN; }
static void c_used(@T{bwtc::PrecompressorBlock} *p, size_t n) { ASSERT(p == &PB && n == LEN && (st == 5 || st == 6), "the decoded bytes belong to the block"); st += 8; SZ += LEN; if (st == 14) { ++cur; st = 3; } }
static void c_tr(void *t, @T{bwtc::BWTBlock} *b) { ASSERT(t == (void*)&inv && b == &SL && (st == 5 || st == 13), "transform of the decoded slice undone"); ++st; if (st == 14) { ++cur; st = 3; } }
static void *c_gr(@T{bwtc::PrecompressorBlock} *p) { ASSERT(p == &PB, "this block's grammar"); return &gr; }
static void c_pp(@T{bwtc::Postprocessor} *p, _Bool v, void *g) { ASSERT(g == (void*)&gr && cur == NS, "this block's grammar"); }
static size_t c_post(@T{bwtc::Postprocessor} *p, uint8_t *b, size_t n, @T{bwtc::OutStream} *o) { ASSERT(b == MEM && n == SZ && o == D.m_out && st == 3 && cur == NS, "the whole block is expanded into the output, once"); st = 2; sum += OS; return OS; }
void harness(void) { D.m_out = (void*)&out; D.m_in = (void*)&in; coder = nondet_u8();
  uint64_t r = @{bwtc::Decompressor::decompress}(&D, 1); REACH("decompressed"); ASSERT(st == 8, "everything up to the closing header is read"); ASSERT(r == sum, "reported size is what was written"); }
"""
    G.append(Group("decompress", DH, pre=DP, stubs={"bwtc::giveInverseTransformer": "c_inv", "bwtc::InStream::readByte": "c_byte", "bwtc::giveEntropyDecoder": "c_give", "bwtc::PrecompressorBlock::readBlockHeader": "c_head", "bwtc::PrecompressorBlock::originalSize": "c_os", "bwtc::PrecompressorBlock::size": "c_sz", "bwtc::PrecompressorBlock::slices": "c_ns", "bwtc::PrecompressorBlock::getSlice": "c_slice", "bwtc::PrecompressorBlock::end": "c_end", "bwtc::PrecompressorBlock::begin": "c_beg", "bwtc::BWTBlock::setBegin": "c_set", "bwtc::BWTBlock::size": "c_len", "bwtc::EntropyDecoder::decodeBlock": "c_dec", "bwtc::PrecompressorBlock::usedAtEnd": "c_used", "bwtc::InverseBWTransform::doTransform": "c_tr", "bwtc::PrecompressorBlock::grammar": "c_gr", "bwtc::Postprocessor::Postprocessor": "c_pp", "bwtc::Postprocessor::uncompress": "c_post"},
        loops={"bwtc::Decompressor::decompress": {0: dict(inv=["st == 2 && self == &D && decompressedSize == sum && (void*)D.m_decoder == (void*)&dec && (void*)ibwt == (void*)&inv"], havoc="st = nondet_u8(); sum = nondet_u64(); OS = nondet_u64(); SZ = nondet_u64(); NS = nondet_u64(); cur = nondet_u64(); LEN = nondet_u32();"), 1: dict(inv=["self == &D && decompressedSize == sum && i == cur && i <= NS && st == 3 && pb == &PB"], havoc="st = nondet_u8(); cur = nondet_u64(); SZ = nondet_u64(); LEN = nondet_u32();", dec="NS - i")}}, unwind=3, flags=CAD, checks=False))
    WT = "bwtc::WaveletTree<std::vector<bool>>"
    WP = r"""
static @T{bwtc::WaveletEncoder} E; static @T{bwtc::WaveletDecoder} D; static struct vec_uint32_t ST; static struct vec_uint64_t CT; static _Bool *SHAPE; static int out, in, pm, im, gm, st; static uint64_t NS, SN, K, pos, nby, len0, sum, ROOT; static uint8_t *BLK; static _Bool hit;
"""
    WE = r"""
static void c_tree(@T{%(W)s} *w, const uint8_t *b, size_t n) { ASSERT(st == 0 && n >= 1 && b == BLK + pos, "the section after the one before"); pos += n; st = 1; nby = 0; hit = 0; SN = nondet_u64(); ASSUME(SN >= 1 && SN < ((uint64_t)1 << 40)); SHAPE = malloc(SN); K = nondet_u64(); ASSUME(K < SN); }
static size_t c_root(const @T{%(W)s} *w) { return ROOT; }
static uint64_t c_pack(uint64_t x, int *b) { ASSERT(x == ROOT, "length of the root"); *b = nondet_u8(); sum += *b; return ROOT; }
static void c_wpack(@T{bwtc::WaveletEncoder} *e, uint64_t x, void *o) { ASSERT(e == &E && o == (void*)&out && x == ROOT && st == 1, "length of the root first"); st = 2; }
static void c_shape(const @T{%(W)s} *w, struct vec_Bool *v) { ASSERT(v->n == 0 && (st == 1 || st == 2), "shape of the tree"); v->d = SHAPE; v->n = SN; }
static void c_byte(void *o, uint8_t b) { ASSERT(o == (void*)&out && st == 2 && nby < (SN + 7) / 8, "bytes of the shape"); if (K / 8 == nby) { hit = 1; ASSERT(((b >> (7 - K %% 8)) & 1) == SHAPE[K], "watched bit of the shape is in its place"); } ++nby; ++sum; }
static void c_enc(const @T{%(W)s} *w, void *d, void *a, void *b, void *c) { ASSERT(st == 2 && nby == (SN + 7) / 8 && hit, "the whole shape is written"); ASSERT(d == (void*)&E.m_destination && a == (void*)&pm && b == (void*)&im && c == (void*)&gm, "models of the coder"); st = 3; }
static void c_endctx(@T{bwtc::WaveletEncoder} *e) { ASSERT(e == &E && st == 3, "section closed"); st = 0; }
void harness(void) { NS = nondet_u64(); ASSUME(NS <= 256); ST.n = NS; ST.d = malloc(256 * 4); BLK = malloc(1); E.m_probModel = (void*)&pm; E.m_integerProbModel = (void*)&im; E.m_gapProbModel = (void*)&gm; sum = E.m_compressedBlockLength = nondet_u64(); ROOT = nondet_u64();
  @{bwtc::WaveletEncoder::encodeData}(&E, BLK, &ST, (void*)&out); REACH("encoded"); ASSERT(st == 0, "every section complete"); ASSERT(E.m_compressedBlockLength == sum, "every byte counted"); }
""" % dict(W=WT)
    DECL = "static void c_tree(@T{%(W)s} *, const uint8_t *, size_t); static size_t c_root(const @T{%(W)s} *); static uint64_t c_pack(uint64_t, int *); static void c_wpack(@T{bwtc::WaveletEncoder} *, uint64_t, void *); static void c_shape(const @T{%(W)s} *, struct vec_Bool *); static void c_byte(void *, uint8_t); static void c_enc(const @T{%(W)s} *, void *, void *, void *, void *); static void c_endctx(@T{bwtc::WaveletEncoder} *);" % dict(W=WT)
    G.append(Group("wavelet_encode", WE, pre=WP.replace("static struct vec_uint64_t CT; ", "").replace("static @T{bwtc::WaveletDecoder} D; ", "") + DECL, defines=VDEF, stubs={WT + "::WaveletTree|const byte *, size_t": "c_tree", WT + "::bitsInRoot": "c_root", WT + "::treeShape": "c_shape", WT + "::encodeTreeBF": "c_enc", "utils::packInteger": "c_pack", "bwtc::WaveletEncoder::writePackedInteger": "c_wpack", "bwtc::OutStream::writeByte": "c_byte", "bwtc::WaveletEncoder::endContextBlock": "c_endctx", WT + "::totalBits": "c_root"},
        loops={"bwtc::WaveletEncoder::encodeData": {0: dict(inv=["i <= NS && stats == &ST && self == &E && block == BLK && beg == pos && st == 0 && E.m_compressedBlockLength == sum"], havoc="st = nondet_u8(); pos = nondet_u64(); sum = nondet_u64(); E.m_compressedBlockLength = nondet_u64();", dec="NS - i", frame=["m_compressedBlockLength"]),
            1: dict(inv=["self == &E && st == 2 && shape.n == SN && shape.d == SHAPE && (k % 8 == 0 || k == SN) && k <= SN && nby == (k + 7) / 8 && (K / 8 >= nby || hit) && E.m_compressedBlockLength == sum"], havoc="nby = nondet_u64(); sum = nondet_u64(); hit = nondet_bool(); E.m_compressedBlockLength = nondet_u64();", frame=["m_compressedBlockLength"], dec="SN - k")}}, unwind=10, flags=UF, checks=False))
    WD = r"""
static _Bool c_over(void *i) { return 0; }
static uint64_t c_hdr(@T{bwtc::WaveletDecoder} *d, @T{bwtc::BWTBlock} *b, struct vec_uint64_t *v, void *i) { ASSERT(d == &D && b == &B && v->n == 0 && i == (void*)&in && st == 9, "block header first"); v->n = NS; v->d = malloc(256 * 8); CT = v; st = 8; return nondet_u64(); }
static uint64_t vp_accumulate_uint64_t(uint64_t *b, uint64_t *e, uint64_t z) { return TOTAL; }
static void c_connect(void *s, void *i) { ASSERT(s == (void*)&D.m_source && i == (void*)&in && st == 8, "decoder reads this stream"); st = 0; }
static uint64_t c_rpack(@T{bwtc::WaveletDecoder} *d, void *i) { ASSERT(d == &D && i == (void*)&in && st == 0, "length of the root first"); st = 2; return ROOT; }
static uint64_t c_unpack(uint64_t x) { ASSERT(x == ROOT, "length of the root"); return ROOT; }
static void c_tree(@T{%(W)s} *w) { nby = 1; /* new tree */ }
static size_t c_shape(@T{%(W)s} *w, void *i) { ASSERT(i == (void*)&in && st == 2 && nby == 1, "shape into a new tree"); nby = 0; st = 3; return nondet_u64(); }
static void c_flush(void *i) { ASSERT(i == (void*)&in && st == 3, "shape fills whole bytes"); st = 4; }
static void c_start(void *s) { ASSERT(s == (void*)&D.m_source && st == 4, "coder starts after the shape"); st = 5; }
static void c_dec(@T{%(W)s} *w, size_t n, void *d, void *a, void *b, void *c) { ASSERT(st == 5 && n == ROOT, "tree filled"); ASSERT(d == (void*)&D.m_source && a == (void*)&pm && b == (void*)&im && c == (void*)&gm, "models of the coder"); st = 6; }
static size_t c_msg(const @T{%(W)s} *w, uint8_t *p) { ASSERT((st == 6 || st == 7) && p == BLK + pos, "section placed after the one before"); uint64_t n = CT->d[SEC]; pos += n; st += 10; if (st == 17) { st = 0; } return n; }
static void c_endctx(@T{bwtc::WaveletDecoder} *d) { ASSERT(d == &D && (st == 6 || st == 16), "section closed"); ++st; if (st == 17) st = 0; }
static uint64_t c_total(const @T{%(W)s} *w) { return nondet_u64(); }
static uint8_t *c_beg(@T{bwtc::BWTBlock} *b) { ASSERT(b == &B, "this block"); return BLK; }
static void c_size(@T{bwtc::BWTBlock} *b, uint32_t n) { ASSERT(b == &B && st == 0 && n == (uint32_t)pos, "length of the block"); st = 20; }
void harness(void) { NS = nondet_u64(); ASSUME(NS >= 1 && NS <= 256); BLK = malloc(1); D.m_probModel = (void*)&pm; D.m_integerProbModel = (void*)&im; D.m_gapProbModel = (void*)&gm; ROOT = nondet_u64(); st = 9; TOTAL = nondet_u64();
  @{bwtc::WaveletDecoder::decodeBlock}(&D, &B, (void*)&in); REACH("decoded"); ASSERT(st == 20, "every section complete"); }
""" % dict(W=WT)
    DD = ("static struct vec_uint64_t *CT; static uint64_t SEC, TOTAL; static @T{bwtc::BWTBlock} B; static _Bool c_over(void *); static uint64_t c_hdr(@T{bwtc::WaveletDecoder} *, @T{bwtc::BWTBlock} *, struct vec_uint64_t *, void *); static uint64_t vp_accumulate_uint64_t(uint64_t *, uint64_t *, uint64_t); static void c_connect(void *, void *); static uint64_t c_rpack(@T{bwtc::WaveletDecoder} *, void *); static uint64_t c_unpack(uint64_t); static void c_tree(@T{%(W)s} *); static size_t c_shape(@T{%(W)s} *, void *); static void c_flush(void *); static void c_start(void *);"
          "static void c_dec(@T{%(W)s} *, size_t, void *, void *, void *, void *); static size_t c_msg(const @T{%(W)s} *, uint8_t *); static void c_endctx(@T{bwtc::WaveletDecoder} *); static uint64_t c_total(const @T{%(W)s} *); static uint8_t *c_beg(@T{bwtc::BWTBlock} *); static void c_size(@T{bwtc::BWTBlock} *, uint32_t);") % dict(W=WT)
    G.append(Group("wavelet_decode", WD, pre=WP.replace("static struct vec_uint32_t ST; ", "").replace("static struct vec_uint64_t CT; ", "").replace("static @T{bwtc::WaveletEncoder} E; ", "") + DD, defines=VDEF, stubs={WT + "::WaveletTree|void ()": "c_tree", WT + "::readShape": "c_shape", WT + "::decodeTreeBF": "c_dec", WT + "::message": "c_msg", WT + "::totalBits": "c_total", "bwtc::InStream::compressedDataEnding": "c_over", "bwtc::WaveletDecoder::readBlockHeader": "c_hdr", "dcsbwt::BitDecoder::connect": "c_connect", "dcsbwt::BitDecoder::start": "c_start", "bwtc::WaveletDecoder::readPackedInteger": "c_rpack", "utils::unpackInteger": "c_unpack", "bwtc::InStream::flushBuffer": "c_flush", "bwtc::WaveletDecoder::endContextBlock": "c_endctx", "bwtc::BWTBlock::begin": "c_beg", "bwtc::BWTBlock::setSize": "c_size"},
        loops={"bwtc::WaveletDecoder::decodeBlock": {0: dict(inv=["i <= NS && self == &D && block == &B && len == pos && st == 0 && CT == &context_lengths && CT->n == NS"], havoc="st = nondet_u8(); pos = nondet_u64(); nby = nondet_u64();", body="SEC = i; /* sum of the sections */", dec="NS - i", post="/* len is the sum of the sections that are in */ ASSUME(pos == blockSize);")}}, unwind=3, flags=UF, checks=False))
    for nm, cls, fin in (("end_encode", "bwtc::WaveletEncoder", "c_fin"), ("end_decode", "bwtc::WaveletDecoder", None)):
        G.append(Group(nm, r"""
static void c_reset(void *m) { if (m == (void*)&pm) ++r1; else if (m == (void*)&im) ++r2; else if (m == (void*)&gm) ++r3; else ASSERT(0, "only the coder's own models"); }
static void c_fin(void *d) { ASSERT(d == DEST, "the coder's own stream"); ++fin; }
void harness(void) { D.m_probModel = (void*)&pm; D.m_integerProbModel = (void*)&im; D.m_gapProbModel = (void*)&gm; %s @{%s::endContextBlock}(&D); REACH("closed"); ASSERT(r1 >= 1 && r2 >= 1 && r3 >= 1, "every model starts afresh in the next section"); ASSERT(fin == %d, "coder closed once"); }
""" % ("DEST = &D.m_destination;" if fin else "", cls, 1 if fin else 0), pre="static @T{%s} D; static int pm, im, gm; static unsigned r1, r2, r3, fin; static void *DEST; static void c_reset(void *); static void c_fin(void *);" % cls, stubs={"bwtc::ProbabilityModel::resetModel": "c_reset", "dcsbwt::BitEncoder::finish": "c_fin"}, unwind=2))
    for nm, cls in (("wavelet_block", "bwtc::WaveletEncoder"), ("huffman_block", "bwtc::HuffmanEncoder")):
        w = "Wavelet" in cls
        G.append(Group(nm, r"""
static void c_tr(void *m, @T{bwtc::BWTBlock} *b, uint32_t *f) { ASSERT(m == (void*)&man && b == &B && st == 0, "transformed first"); ASSERT(f[W] == 0, "counts start at zero"); st = 1; FR = f; f[W] = X; }
static void c_con(void *d, void *o) { ASSERT(o == (void*)&out && (st == 0 || st == 1), "coder writes this stream"); con = 1; }
static void c_head(@T{%(C)s} *e, @T{bwtc::BWTBlock} *b, struct vec_uint32_t *v, void *o) { ASSERT(e == &E && b == &B && o == (void*)&out && st == 1, "header"); ASSERT(v->d == FR && v->n == 256 && v->d[W] == X, "counts of the transform"); st = 2; }
static uint8_t *c_beg(@T{bwtc::BWTBlock} *b) { ASSERT(b == &B, "this block"); return BLK; }
static size_t c_len(const @T{bwtc::BWTBlock} *b) { ASSERT(b == &B, "this block"); return LEN; }
static void c_data(@T{%(C)s} *e, const uint8_t *p, struct vec_uint32_t *v, %(L)s void *o) { ASSERT(e == &E && p == BLK && o == (void*)&out && st == 2 && v->d == FR && con, "data after the header"); %(LA)s st = 3; E.m_compressedBlockLength = Y; }
static void c_fin(@T{%(C)s} *e, void *o) { ASSERT(e == &E && o == (void*)&out && st == 3, "length filled in last"); st = 4; E.m_compressedBlockLength = Y = nondet_u64(); }
void harness(void) { W = nondet_u8(); X = nondet_u32(); Y = nondet_u64(); LEN = nondet_u32(); con = %(con)d; BLK = malloc(1); uint64_t r = @{%(C)s::transformAndEncode}(&E, &B, (void*)&man, (void*)&out); REACH("encoded"); ASSERT(st == 4, "block complete"); ASSERT(r == Y + 6, "size of the block with its length field"); }
""" % dict(C=cls, L="" if w else "uint32_t n,", LA="" if w else 'ASSERT(n == LEN, "all of the block");', con=0 if w else 1),
            pre="static @T{%(C)s} E; static @T{bwtc::BWTBlock} B; static int man, out, st; static _Bool con; static uint8_t W, *BLK; static uint32_t X, LEN, *FR; static uint64_t Y; static void c_tr(void *, @T{bwtc::BWTBlock} *, uint32_t *); static void c_con(void *, void *); static void c_head(@T{%(C)s} *, @T{bwtc::BWTBlock} *, struct vec_uint32_t *, void *); static uint8_t *c_beg(@T{bwtc::BWTBlock} *); static size_t c_len(const @T{bwtc::BWTBlock} *); static void c_data(@T{%(C)s} *, const uint8_t *, struct vec_uint32_t *, %(L)s void *); static void c_fin(@T{%(C)s} *, void *);" % dict(C=cls, L="" if w else "uint32_t,"), defines=VDEF,
            stubs={"bwtc::BWTManager::doTransform": "c_tr", "dcsbwt::BitEncoder::connect": "c_con", cls + "::writeBlockHeader": "c_head", "bwtc::BWTBlock::begin": "c_beg", "bwtc::BWTBlock::size": "c_len", cls + "::encodeData": "c_data", cls + "::finishBlock": "c_fin"}, unwind=3, checks=False))
    G.append(Group("coders", r"""
static void c_he(@T{bwtc::HuffmanEncoder} *e) { kind = 1; } static void c_hd(@T{bwtc::HuffmanDecoder} *e) { kind = 1; }
static void c_we(@T{bwtc::WaveletEncoder} *e, char c) { kind = 2; model = c; } static void c_wd(@T{bwtc::WaveletDecoder} *e, char c) { kind = 2; model = c; }
void harness(void) { char c = nondet_u8(); @{bwtc::giveEntropyEncoder}(c); int k = kind, m = model; ASSERT(k != 0, "there is an encoder"); kind = 0; model = 0; @{bwtc::giveEntropyDecoder}(c); REACH("given"); ASSERT(kind == k && (char)model == (char)m, "decoder of the same kind with the same model"); }
""", pre="static int kind, model; static void c_he(@T{bwtc::HuffmanEncoder} *); static void c_hd(@T{bwtc::HuffmanDecoder} *); static void c_we(@T{bwtc::WaveletEncoder} *, char); static void c_wd(@T{bwtc::WaveletDecoder} *, char);", stubs={"bwtc::HuffmanEncoder::HuffmanEncoder": "c_he", "bwtc::HuffmanDecoder::HuffmanDecoder": "c_hd", "bwtc::WaveletEncoder::WaveletEncoder|void (char)": "c_we", "bwtc::WaveletDecoder::WaveletDecoder|void (char)": "c_wd"}, unwind=2, checks=False))
    # Huffman payload: watched bit P of the code stream, then of the run-length stream
    HP = r"""
static @T{bwtc::HuffmanEncoder} E; static struct vec_uint32_t ST; static int out, st; static uint64_t NS, SN, K, pos, nby, sum, NR, P, EB, T; static uint8_t *BLK, *RS; static uint32_t *RL, *CLEN; static _Bool hit, XB, seen, *SHAPE, okb; static struct pair_uint64_t_uint32_t *PL; static uint64_t R; static uint32_t WSYM, WLEN, NC;
static uint64_t c_runs(uint64_t *f, uint8_t *s, uint32_t *l, const uint8_t *b, size_t n); static void c_len(struct vec_pair_uint64_t_uint32_t *v, uint64_t *f, uint32_t a); static uint64_t c_pack(uint64_t x, int *b); static void c_wpack(@T{bwtc::HuffmanEncoder} *e, uint64_t x, void *o); static void c_shape(@T{bwtc::HuffmanEncoder} *e, uint32_t *c, struct vec_Bool *v); static void c_codes(uint32_t *c, uint32_t *d); static void c_byte(void *o, uint8_t b);
static void vp_fill_uint32_t(uint32_t *b, uint32_t *e, uint32_t v) { ASSERT(e - b == 256, "the whole table"); __CPROVER_array_set(b, v); }
static void vp_fill_uint64_t(uint64_t *b, uint64_t *e, uint64_t v) { ASSERT(e - b == 256, "the whole table"); __CPROVER_array_set(b, v); }
/* n bits of v are added to the stream */
static void push(uint64_t v, uint32_t n) { if (P >= T && P < T + n) { XB = n - 1 - (P - T) < 64 ? (v >> (n - 1 - (P - T))) & 1 : 0; hit = 1; } T += n; }
#define STREAM (bitsInBuffer >= 0 && bitsInBuffer <= 64 && EB <= T && T < ((uint64_t)1 << 61) && T == EB + (uint64_t)bitsInBuffer && EB %% 8 == 0 && hit == (P < T) && seen == (P < EB) && (P < EB || P >= T || ((buffer >> (T - 1 - P)) & 1) == XB))
""".replace("%%", "%")
    HH = r"""
static uint64_t c_runs(uint64_t *f, uint8_t *s, uint32_t *l, const uint8_t *b, size_t n) { ASSERT(b == BLK + pos && n >= 1 && st == 0, "the section after the one before"); ASSERT(f[K & 255] == 0, "counts start at zero"); pos += n; st = 1; RS = s; RL = l; NR = nondet_u64(); ASSUME(NR >= 1 && NR <= n); return NR; }
static void c_len(struct vec_pair_uint64_t_uint32_t *v, uint64_t *f, uint32_t a) { ASSERT(v->n == 0 && a == 256 && st == 1, "lengths of the runs' symbols"); NC = nondet_u32(); ASSUME(NC >= 1 && NC <= 256); v->n = NC; v->d = PL = malloc(256 * sizeof *v->d); R = nondet_u64(); ASSUME(R < NC); WSYM = PL[R].second; WLEN = PL[R].first; ASSUME(WSYM < 256 && WLEN >= 1 && WLEN < 48); }
static uint64_t c_pack(uint64_t x, int *b) { ASSERT(x == NR, "number of runs"); *b = nondet_u8(); sum += *b; return NR; }
static void c_wpack(@T{bwtc::HuffmanEncoder} *e, uint64_t x, void *o) { ASSERT(e == &E && o == (void*)&out && x == NR && st == 1, "number of runs first"); st = 2; nby = 0; }
static void c_shape(@T{bwtc::HuffmanEncoder} *e, uint32_t *c, struct vec_Bool *v) { ASSERT(e == &E && v->n == 0 && (st == 1 || st == 2), "shape of the code"); ASSERT(c[WSYM] == WLEN, "watched symbol has its length"); CLEN = c; SN = nondet_u64(); ASSUME(SN >= 1 && SN < 100000); SHAPE = malloc(SN); K = nondet_u64(); ASSUME(K < SN); okb = 0; v->d = SHAPE; v->n = SN; }
static void c_codes(uint32_t *c, uint32_t *d) { ASSERT(c == CLEN && c[WSYM] == WLEN, "codes of the same lengths"); __CPROVER_havoc_object(d); }
static void c_byte(void *o, uint8_t b) { ASSERT(o == (void*)&out, "this stream"); ++sum;
  if (st == 2) { ASSERT(nby < (SN + 7) / 8, "bytes of the shape"); if (K / 8 == nby) { okb = 1; ASSERT(((b >> (7 - K % 8)) & 1) == SHAPE[K], "watched bit of the shape is in its place"); } ++nby; }
  else { ASSERT(st == 3 || st == 4, "codes, then run lengths"); if (P >= EB && P < EB + 8 && hit) { seen = 1; ASSERT(((b >> (7 - (P - EB))) & 1) == XB, "watched bit of the payload is in its place"); } EB += 8; } }
void harness(void) { NS = nondet_u64(); ASSUME(NS <= 256); ST.n = NS; ST.d = malloc(256 * 4); BLK = malloc(1); sum = E.m_compressedBlockLength = nondet_u64();
  @{bwtc::HuffmanEncoder::encodeData}(&E, BLK, &ST, nondet_u32(), (void*)&out); REACH("encoded"); ASSERT(st == 0, "every section complete"); ASSERT(E.m_compressedBlockLength == sum, "every byte counted"); }
"""
    HB = "self == &E && E.m_compressedBlockLength == sum && nRuns == NR && runseq == RS && runlen == RL"
    HVS = "EB = nondet_u64(); T = nondet_u64(); sum = nondet_u64(); hit = nondet_bool(); seen = nondet_bool(); XB = nondet_bool(); E.m_compressedBlockLength = nondet_u64(); "
    FM = ["m_compressedBlockLength"]
    BOUND = "T < ((uint64_t)1 << 60)"
    def drain(extra, n): return dict(inv=[HB, "STREAM", extra], havoc=HVS.replace("hit = nondet_bool(); ", "").replace("XB = nondet_bool(); ", "").replace("T = nondet_u64(); ", ""), frame=FM, dec="bitsInBuffer", pre="uint64_t VT%d = T; _Bool VH%d = hit;" % (n, n))
    HL = {"bwtc::HuffmanEncoder::encodeData": {
        0: dict(inv=["i <= NS && stats == &ST && self == &E && block_ptr == BLK && beg == pos && st == 0 && E.m_compressedBlockLength == sum"], havoc="st = nondet_u8(); pos = nondet_u64(); sum = nondet_u64(); E.m_compressedBlockLength = nondet_u64(); K = nondet_u64();", dec="NS - i", frame=FM + ["clen"]),
        1: dict(inv=["(uint32_t)nCodes == NC && 0 <= k && k <= nCodes && self == &E && st == 1 && E.m_compressedBlockLength == sum && nRuns == NR && runseq == RS && runlen == RL && codeLengths.d == PL && codeLengths.n == NC", "(uint64_t)k <= R || clen[WSYM] == WLEN"], havoc="__CPROVER_havoc_object(clen);", body="ASSUME(codeLengths.d[k].second < 256 && ((uint64_t)k == R) == (codeLengths.d[k].second == WSYM)); if ((uint64_t)k == R) ASSUME(codeLengths.d[k].first == WLEN);", frame=["clen"], dec="nCodes - k"),
        2: dict(inv=[HB + " && st == 2 && shape.n == SN && shape.d == SHAPE && clen == CLEN && clen[WSYM] == WLEN && (k % 8 == 0 || k == SN) && k <= SN && nby == (k + 7) / 8 && (K / 8 >= nby || okb)"], havoc="nby = nondet_u64(); sum = nondet_u64(); okb = nondet_bool(); E.m_compressedBlockLength = nondet_u64();", frame=FM, dec="SN - k", post='ASSERT(nby == (SN + 7) / 8 && okb, "the whole shape is written");'),
        4: dict(inv=[HB + " && st == 3 && k <= NR", "STREAM"], pre="st = 3; P = nondet_u64(); EB = T = 0; hit = seen = XB = 0;", havoc=HVS, frame=FM, dec="NR - k", body="ASSUME(T < ((uint64_t)1 << 60)); ASSUME(clen[RS[k]] >= 1 && clen[RS[k]] < 48 && code[RS[k]] < 256 && code[RS[k]] < ((uint64_t)1 << clen[RS[k]]));"),
        5: dict(drain("1", 5), post="push(code[c], clen[c]);"),
        6: dict(drain("1", 6)),
        7: dict(inv=[HB + " && st == 4 && k <= NR", "STREAM"], pre='ASSERT(hit == (P < T) && seen == hit, "no bit of the codes is left behind"); st = 4; P = nondet_u64(); EB = T = 0; hit = seen = XB = 0;', havoc=HVS, frame=FM, dec="NR - k", body="ASSUME(T < ((uint64_t)1 << 60)); ASSUME(runlen[k] >= 1 && runlen[k] < 0x7fffffffu);"),
        8: dict(drain("1", 8), post="push(0, zeros);"),
        9: dict(drain("1", 9), post="push(runlen[k], gammaCodeLen);"),
        10: dict(drain("1", 10))}}
    HL["bwtc::HuffmanEncoder::encodeData"][0]["end"] = 'if (st == 4) { ASSERT(hit == (P < T) && seen == hit, "no bit of the run lengths is left behind"); st = 0; }'
    G.append(Group("huffman_encode", HH, pre=HP, defines=VDEF, stubs={"utils::calculateRunFrequenciesAndStoreRuns": "c_runs", "utils::calculateHuffmanLengths": "c_len", "utils::packInteger": "c_pack", "bwtc::HuffmanEncoder::writePackedInteger": "c_wpack", "bwtc::HuffmanEncoder::serializeShape": "c_shape", "utils::computeHuffmanCodes": "c_codes", "bwtc::OutStream::writeByte": "c_byte"}, loops=HL, unwind=10, flags=UF, checks=False))
    # Huffman decoder: sections, run lengths and expansion; the table-driven symbol loop is abstracted (its contract is exercised natively)
    RP = r"""
static @T{bwtc::HuffmanDecoder} D; static @T{bwtc::BWTBlock} B; static int in, st; static uint64_t NS, NR, pos, SEC, TOTAL, cur, KW, OW; static uint32_t q, *CLEN; static uint8_t *BLK, *RSQ, WB; static struct vec_uint64_t *CT;
uint32_t __CPROVER_uninterpreted_rl(uint64_t); uint64_t __CPROVER_uninterpreted_off(uint64_t); uint8_t __CPROVER_uninterpreted_rs(uint64_t);
#define RLN(k) __CPROVER_uninterpreted_rl(k)  /* length of run k */
#define OFF(k) __CPROVER_uninterpreted_off(k) /* sum of the lengths before */
#define RSY(k) __CPROVER_uninterpreted_rs(k)
uint32_t __CPROVER_uninterpreted_lg(uint64_t);
static void run(uint64_t k) { ASSUME(__CPROVER_uninterpreted_lg(k) < 31 && (RLN(k) >> __CPROVER_uninterpreted_lg(k)) == 1); ASSUME(RLN(k) >= 1 && RLN(k) < 0x7fffffffu && OFF(k + 1) == OFF(k) + RLN(k) && OFF(k) < ((uint64_t)1 << 40)); }
uint32_t __CPROVER_uninterpreted_lg(uint64_t);
#define LG(k) __CPROVER_uninterpreted_lg(k)
static _Bool c_over(void *i) { return 0; }
static uint64_t vp_accumulate_uint64_t(uint64_t *b, uint64_t *e, uint64_t z) { return TOTAL; }
static void vp_fill_uint32_t(uint32_t *b, uint32_t *e, uint32_t v) { ASSERT(e - b == 256, "the whole table"); __CPROVER_array_set(b, v); } static void vp_fill_uint16_t(uint16_t *b, uint16_t *e, uint16_t v) { }
static uint64_t c_hdr(@T{bwtc::HuffmanDecoder} *d, @T{bwtc::BWTBlock} *b, struct vec_uint64_t *v, void *i); static uint64_t c_rpack(@T{bwtc::HuffmanDecoder} *d, void *i); static uint64_t c_unpack(uint64_t x); static size_t c_shape(@T{bwtc::HuffmanDecoder} *d, void *i, uint32_t *c); static void c_codes(uint32_t *c, uint32_t *d); static void c_flush(void *i); static _Bool c_bit(void *i); static uint8_t c_byte(void *i); static uint8_t *c_beg(@T{bwtc::BWTBlock} *b); static void c_size(@T{bwtc::BWTBlock} *b, uint32_t n);
"""
    RH = r"""
static uint64_t c_hdr(@T{bwtc::HuffmanDecoder} *d, @T{bwtc::BWTBlock} *b, struct vec_uint64_t *v, void *i) { ASSERT(d == &D && b == &B && v->n == 0 && i == (void*)&in && st == 9, "block header first"); v->n = NS; v->d = malloc(256 * 8); CT = v; st = 0; return nondet_u64(); }
static uint64_t c_rpack(@T{bwtc::HuffmanDecoder} *d, void *i) { ASSERT(d == &D && i == (void*)&in && st == 0, "number of runs first"); st = 1; NR = nondet_u64(); ASSUME(NR >= 1 && NR <= TOTAL); return NR; }
static uint64_t c_unpack(uint64_t x) { ASSERT(x == NR, "number of runs"); return NR; }
static size_t c_shape(@T{bwtc::HuffmanDecoder} *d, void *i, uint32_t *c) { ASSERT(d == &D && i == (void*)&in && st == 1, "shape of the code"); ASSERT(c[WB] == 0, "lengths start at zero"); CLEN = c; st = 2; return nondet_u64(); }
static void c_codes(uint32_t *c, uint32_t *d) { ASSERT(c == CLEN && st == 2, "codes of these lengths"); st = 3; }
static void c_flush(void *i) { ASSERT(i == (void*)&in && (st == 4 || st == 6), "rest of the last byte skipped"); if (st == 6) ASSERT(cur == NR && q == 0, "all run lengths read"); ++st; }
static _Bool c_bit(void *i) { if (st == 5) { st = 6; cur = 0; q = 0; } ASSERT(i == (void*)&in && st == 6 && cur < NR, "run lengths after the symbols"); run(cur); uint32_t v = RLN(cur), l = LG(cur); _Bool b = (v >> (2 * l - q)) & 1; if (q < l) b = 0; if (q++ == 2 * l) { ++cur; q = 0; } return b; }
static uint8_t c_byte(void *i) { return nondet_u8(); }
static uint8_t *c_beg(@T{bwtc::BWTBlock} *b) { ASSERT(b == &B, "this block"); return BLK; }
static void c_size(@T{bwtc::BWTBlock} *b, uint32_t n) { ASSERT(b == &B && st == 0 && n == (uint32_t)TOTAL, "length of the block"); st = 20; }
void harness(void) { NS = nondet_u64(); ASSUME(NS >= 1 && NS <= 256); uint64_t SZ = nondet_u64(); ASSUME(SZ == (uint64_t)1 << 42 || SZ == ((uint64_t)1 << 42) + 1); BLK = malloc(SZ); st = 9; TOTAL = nondet_u64(); ASSUME(TOTAL >= 1 && TOTAL < 0x7fffffff); WB = nondet_u8(); KW = nondet_u64(); OW = nondet_u64();
  @{bwtc::HuffmanDecoder::decodeBlock}(&D, &B, (void*)&in); REACH("decoded"); ASSERT(st == 20, "every section complete"); }
"""
    cut = dict(inv=[], havoc="", body="ASSUME(0);", frame=["leadingZeros", "lookupWhich", "lookupLength", "runseq"])
    RL_ = {k: dict(cut) for k in list(range(1, 9)) + list(range(10, 21))}
    RBASE = "self == &D && block == &B && nRuns == NR && CT == &context_lengths && CT->n == NS && i < NS && i == SEC"
    RL_[0] = dict(inv=["i <= NS && self == &D && block == &B && st == 0 && CT == &context_lengths && CT->n == NS && data_ptr == BLK + pos && pos < ((uint64_t)1 << 41)"], havoc="st = nondet_u8(); pos = nondet_u64(); NR = nondet_u64(); cur = nondet_u64(); q = nondet_u32(); __CPROVER_havoc_object(BLK);", body="SEC = i;", end="if (st == 7) { st = 0; pos += OFF(NR); ASSUME(pos < ((uint64_t)1 << 41)); }", frame=["leadingZeros", "lookupWhich", "lookupLength", "runseq", "runlen", "data_ptr", "clen"], dec="NS - i")
    RL_[9] = dict(inv=[RBASE, "st == 3"], havoc="", body="ASSUME(0);", frame=["runseq"], post='st = 4; RSQ = runseq; ASSUME(KW < NR && OFF(0) == 0);')
    RL_[21] = dict(inv=[RBASE, "k <= NR && runseq == RSQ && (k == 0 ? st == 5 : st == 6 && cur == k && q == 0)", "KW >= k || runlen[KW] == RLN(KW)"], havoc="st = nondet_u8(); cur = nondet_u64(); q = nondet_u32(); __CPROVER_havoc_object(runlen);", frame=["runlen"], dec="NR - k", body="run(k);")
    RL_[22] = dict(inv=[RBASE + " && k < NR && runseq == RSQ", "zeros >= 0 && (uint32_t)zeros <= LG(k) && ((zeros == 0 && k == 0 && st == 5) || (st == 6 && cur == k && q == (uint32_t)zeros))"], havoc="st = nondet_u8(); cur = nondet_u64(); q = nondet_u32();", dec="(int64_t)LG(k) - zeros")
    RL_[23] = dict(inv=[RBASE + " && k < NR && runseq == RSQ && st == 6", "(uint32_t)zeros == LG(k) && t >= 0 && t <= zeros && (t == zeros ? cur == k + 1 && q == 0 : cur == k && q == (uint32_t)(zeros + 1 + t))", "value == ((RLN(k) >> (zeros - t)) & (((uint64_t)1 << t) - 1))"], havoc="cur = nondet_u64(); q = nondet_u32();", body="run(k);", dec="zeros - t")
    RL_[24] = dict(inv=[RBASE, "k <= NR && runseq_ptr == RSQ + k && data_ptr == BLK + pos + OFF(k) && st == 7 && pos < ((uint64_t)1 << 41) && OFF(k) < ((uint64_t)1 << 41)", "KW >= k || OW >= RLN(KW) || BLK[pos + OFF(KW) + OW] == RSY(KW)"], havoc="__CPROVER_havoc_object(BLK);", frame=["data_ptr"], dec="NR - k",
                   body="run(k); /* contract of the symbol loop and of the loop above, run k */ ASSUME(RSQ[k] == RSY(k) && runlen[k] == RLN(k)); run(KW); if (KW < k) ASSUME(OFF(KW + 1) <= OFF(k)); else ASSUME(KW == k || OFF(k + 1) <= OFF(KW));", post='REACH("filled"); ASSERT(OW >= RLN(KW) || BLK[pos + OFF(KW) + OW] == RSY(KW), "watched byte of the watched run");')
    RL_[25] = dict(inv=[RBASE, "t <= RLN(k) && runlen[k] == RLN(k) && runseq_ptr == RSQ + k && data_ptr == BLK + pos + OFF(k) + t && st == 7", "KW >= k || OW >= RLN(KW) || BLK[pos + OFF(KW) + OW] == RSY(KW)", "KW != k || OW >= t || BLK[pos + OFF(KW) + OW] == RSY(KW)"], havoc="__CPROVER_havoc_object(BLK);", body="runseq_ptr = RSQ + k; data_ptr = BLK + pos + OFF(k) + t; ASSUME(*runseq_ptr == RSY(k));", frame=["data_ptr"], dec="runlen[k] - t")
    G.append(Group("huffman_decode", RH, pre=RP, defines=VDEF, stubs={"bwtc::InStream::compressedDataEnding": "c_over", "bwtc::HuffmanDecoder::readBlockHeader": "c_hdr", "bwtc::HuffmanDecoder::readPackedInteger": "c_rpack", "utils::unpackInteger": "c_unpack", "bwtc::HuffmanDecoder::deserializeShape": "c_shape", "utils::computeHuffmanCodes": "c_codes", "bwtc::InStream::flushBuffer": "c_flush", "bwtc::InStream::readBit": "c_bit", "bwtc::InStream::readByte": "c_byte", "bwtc::BWTBlock::begin": "c_beg", "bwtc::BWTBlock::setSize": "c_size"},
        loops={"bwtc::HuffmanDecoder::decodeBlock": RL_}, unwind=3, flags=UF, checks=False, split=6))
    # the contracts the composition rests on: every check of C15 discharges them again (the slowest of them are left to their own property)
    for c, m in PARTS.items():
        for g in m.groups(tier):
            if g.name not in LEFT.get(c, ()):
                g.name = "%s_%s" % (c.lower(), g.name)
                G.append(g)
    return G
