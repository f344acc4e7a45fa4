"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (run by hand when they change; checks never run it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/vlib", V + "/props"]
def M(name, where): return {"name": name, "where": where}
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": mech, "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Variable-length integers survive every write/read pairing",
     "Every integer that a header or a section can carry is read back exactly by the reader that the format pairs with the writer, whatever its magnitude (including zero). "
     "The number of bytes written is the canonical seven-bits-per-byte length, nothing is written beyond it, and the reader consumes exactly the bytes written, so what follows stays aligned.",
     ["inputs"], "every 64-bit value (below 2^56 for the packed-word form), every writer/reader pair of the format",
     "The tests try a few small values per pair; lengths of 6-10 bytes, byte boundaries and the bit-wise variants are not sampled.",
     ["Utils.cpp", "Utils.hpp", "HuffmanCoders.cpp", "WaveletCoders.cpp"],
     [M("packed integers", "utils::packInteger, unpackInteger, packAndWriteInteger, readAndUnpackInteger, readPackedIntegerRev"), M("stream forms", "WaveletEncoder/HuffmanEncoder::writePackedInteger, readPackedInteger")],
     ["bytes written", "value read", "bytes consumed"])
prop("C02", "Arithmetic coding decodes to exactly the encoded bits",
     "Any sequence of bits encoded with any sequence of legal 12-bit probabilities decodes to the same bits when the decoder is given the same probabilities. "
     "The decoder consumes exactly the bytes the encoder produced for that sequence, so several coded sequences can follow one another on one stream. The coder's interval never becomes empty.",
     ["inputs", "histories"], "every coder state reachable through any bit/probability history of any length",
     "Round trips of a few files sample a vanishing share of the 2^64 coder states; carry, underflow and extreme-probability states are rare.",
     ["BitCoders.cpp", "BitCoders.hpp"],
     [M("encoder step and finish", "dcsbwt::BitEncoder::encode, finish"), M("decoder start and step", "dcsbwt::BitDecoder::start, decode"), M("interval split", "dcsbwt::Split")],
     ["bits decoded", "bytes consumed"])
prop("C03", "Probability models stay legal and in lockstep on both sides",
     "After any history of observed bits and resets, every selectable probability model predicts a probability inside the open range the arithmetic coder accepts. "
     "Two instances of the same model (the compressor's and the decompressor's) that see the same history always predict the same value, independently of what other models or earlier blocks did. "
     "Models never read or write outside their own state.",
     ["inputs", "histories", "configurations"], "every history of update / state update / reset operations, every model choice",
     "Tests run short random histories on one instance; saturation after long skewed histories and cross-instance interference are not covered.",
     ["probmodels/BitPredictors.hpp", "probmodels/FSM.hpp", "probmodels/ProbabilityModel.cpp", "probmodels/ProbabilityModel.hpp"],
     [M("predictors", "UnbiasedPredictor, BiasedOnePredictor, EvenIntervalPredictor, SimpleMarkov, FSM models"), M("model selection", "giveProbabilityModel, giveModelForIntegerCodes, giveModelForGaps")],
     ["probability value", "two instances compared"])
prop("C04", "The output stream writes exactly the bytes it is given, in order",
     "For every sequence of byte writes, block writes, position queries, flushes and 48-bit back-patches on a regular file, the file finally holds exactly the given bytes in order, with each back-patch replacing six bytes (most significant first) and changing nothing else. "
     "The reported position always equals the number of bytes written so far. Destroying the stream leaves nothing unwritten.",
     ["inputs", "histories"], "every operation sequence, every block size, every buffer fill and file length",
     "Tests write a handful of small files; behaviour at buffer boundaries, back-patches across the buffered part and interleavings are unsampled.",
     ["Streams.cpp", "Streams.hpp"],
     [M("buffering", "RawOutStream::writeByte, writeBlock, flush"), M("back-patching", "RawOutStream::write48bits, getPos"), M("destruction", "RawOutStream::~RawOutStream")], ["file contents", "reported position"])
prop("C05", "The input stream delivers every byte and bit once, in order",
     "Bytes, bits (most significant first), blocks and 48-bit words read from the input come out in file order, each exactly once, for any file size and any mix of reads. "
     "A block read returns exactly the smaller of the request and the remaining data. The end is reported when no data remains and never while more than one byte does.",
     ["inputs", "histories"], "every file content and length, every read sequence",
     "Tests read small files; reads that straddle the internal buffer, mixed bit/byte reads and exact-multiple lengths are not exhaustively covered.",
     ["Streams.cpp", "Streams.hpp"],
     [M("refill", "RawInStream::fetchByte, peekByte"), M("bit access", "RawInStream::readBit, readByte, flushBuffer"), M("blocks and words", "RawInStream::readBlock, read48bits, compressedDataEnding")], ["bytes and bits returned"])
prop("C06", "Universal integer and set codes are inverted exactly",
     "Unary, Elias-gamma-like, semi-fixed run-length and fixed-range binary codes decode to the encoded value and consume exactly the encoded bits, for every value and every parameter. "
     "A strictly increasing list of symbols or run lengths coded within a range by interpolative coding is decoded to the same list, for every list and range. "
     "Reported code lengths equal the number of bits produced.",
     ["inputs"], "every value, every range up to 2^32 values, every parameter, every strictly increasing list",
     "Tests use a few fixed lists; ranges that are not powers of two, full ranges, singletons and lists with clustered elements are sampled at best.",
     ["Utils.hpp", "Utils.cpp", "WaveletTree.hpp"],
     [M("range codes", "utils::binaryCode, binaryDecode"), M("interpolative code", "utils::binaryInterpolativeCode, binaryInterpolativeDecode"), M("unary and gamma", "utils::unaryCode, unaryDecode, gammaCode, gammaDecode"), M("run-length code", "WaveletTree::fixedIntegerCode, fixedIntegerCodeTranslation, lengthOfFixedCode")],
     ["decoded values", "bits consumed"])
prop("C07", "Run decomposition loses nothing",
     "For every non-empty block, the sequence of runs the coders derive from it expands back to exactly that block, consecutive runs have different symbols, and every run is non-empty. "
     "The counted run frequencies per symbol and per run length agree with that sequence.",
     ["inputs"], "every block content and length",
     "Tests check a few strings; runs ending at the block end, single-byte blocks and long runs are corner cases.",
     ["Utils.cpp", "Utils.hpp", "WaveletTree.hpp"],
     [M("run counting", "utils::calculateRunFrequencies, calculateRunFrequenciesAndStoreRuns, calculateRunsAndCharacters"), M("run pushing", "WaveletTree::pushMessage")], ["runs", "frequencies"])
prop("C08", "Transform block headers carry the starting points exactly",
     "The per-block header written by the compressor (starting points of the transform and section lengths) is read back by the decompressor to the same number of points, the same values below 2^31 and the same section lengths, and the reader stops exactly where the writer did. "
     "The header length counted by the compressor equals the bytes written. Section lengths always add up to the block size.",
     ["inputs", "configurations"], "1 to 256 starting points of any 31-bit value; every character distribution",
     "Tests use a couple of header values; bit packing across byte boundaries for every count and the 256-section case are not covered.",
     ["BWTBlock.cpp", "BWTBlock.hpp", "HuffmanCoders.cpp", "WaveletCoders.cpp"],
     [M("block header", "BWTBlock::writeHeader, readHeader"), M("sections", "HuffmanEncoder::writeBlockHeader, HuffmanDecoder::readBlockHeader, WaveletEncoder::writeBlockHeader, WaveletDecoder::readBlockHeader")], ["LF powers", "section lengths"])
prop("C09", "Splitting into transform blocks partitions the preprocessed data",
     "The slices handed to the transform cover the preprocessed data exactly once, in order, without gaps or overlap, each non-empty and no larger than the configured limit, with room for the sentinel. "
     "The block header (original size, slice count) is read back exactly as written.",
     ["inputs", "configurations"], "every data size, every slice limit, every header value",
     "Tests use a few sizes; sizes at and around multiples of the limit decide whether a slice is lost or doubled.",
     ["PrecompressorBlock.cpp", "PrecompressorBlock.hpp"],
     [M("slicing", "PrecompressorBlock::sliceIntoBlocks"), M("header", "PrecompressorBlock::writeBlockHeader, readBlockHeader"), M("bounds", "PrecompressorBlock ctor, setSize")], ["slice boundaries", "header fields"])
prop("C10", "The symbol frequency table stays sorted and exact",
     "After any sequence of increases and decreases the table lists every symbol exactly once, with exactly the frequency that sequence implies, in ascending order of frequency, and refuses a decrease below zero without changing anything. "
     "No operation touches memory outside the table.",
     ["inputs", "histories"], "every sequence of operations on every initial table",
     "Tests perform a few updates; ties, moves across many equal entries and updates at the ends need specific configurations.",
     ["preprocessors/FrequencyTable.cpp", "preprocessors/FrequencyTable.hpp"],
     [M("updates", "FrequencyTable::increase, decrease"), M("order", "FrequencyTable::initialize, assertCorrectness")], ["frequencies by rank", "rank of symbols"])
prop("C11", "Replacement grammars are transmitted exactly",
     "The replacement rules collected by preprocessing (variables, right-hand sides, special symbols and the symbols freed for them) are read by the decompressor exactly as they were written, consuming exactly the bytes written, for every grammar the preprocessor can build. "
     "The pairing between pairs of special symbols and code numbers is a bijection on the numbers in use.",
     ["inputs", "histories"], "every set of rules, up to 255 special symbols, every pair of special symbols",
     "Tests serialise small grammars; many specials, two-symbol variables, rule counts that are not multiples of the packing unit are not reached.",
     ["preprocessors/Grammar.cpp", "preprocessors/Grammar.hpp"],
     [M("serialisation", "Grammar::writeGrammar, readGrammar and helpers"), M("special pairs", "Grammar::numberOfSpecialPair, specialPair"), M("collection", "Grammar::addRule, expandAlphabet, beginUpdatingRules, endUpdatingRules")], ["rules", "special symbols"])
prop("C12", "Pair replacement is undone exactly by postprocessing",
     "For every block and every preprocessing option string, undoing the recorded replacements on the replaced data gives back exactly the original block, byte for byte, including very short blocks, blocks using all 256 byte values and repeated passes. "
     "Replacement never produces more data than the block it was given and never writes outside the block's memory.",
     ["inputs", "configurations"], "every block content, every option string over the replacers",
     "Tests sample random blocks; overlapping pairs at block ends, full alphabets needing freed symbols and multi-pass interactions are rare.",
     ["preprocessors/PairReplacer.cpp", "preprocessors/PairReplacer.hpp", "preprocessors/Precompressor.cpp", "preprocessors/Postprocessor.cpp", "preprocessors/Grammar.cpp"],
     [M("analysis and replacement", "PairReplacer::analyseData, decideReplacements, writeReplacedVersion"), M("passes", "Precompressor::precompress"), M("undoing", "Postprocessor::postProcess, uncompress")], ["restored bytes"])
prop("C13", "The inverse transform restores every block",
     "For every block, applying the forward transform (with any number of starting points and either suffix sorter) and then any of the inverse transforms restores the block exactly. "
     "The character counts reported by the forward transform are those of the transformed block.",
     ["inputs", "configurations"], "every block content and length, every choice of forward and inverse algorithm, 1 to 256 starting points",
     "Tests restore sampled blocks; starting-point arithmetic at uneven block sizes, tiny blocks and highly repetitive blocks are corner cases.",
     ["bwtransforms/BWTransform.cpp", "bwtransforms/InverseBWT.cpp", "bwtransforms/MtlSaInverseBWT.cpp", "bwtransforms/BWTManager.cpp", "BWTBlock.cpp"],
     [M("forward", "BWTransform subclasses, BWTManager::doTransform"), M("inverse", "FastInverseBWTransform, MtlSaInverseBWTransform::doTransform")], ["restored block", "character counts"])
prop("C14", "Huffman codes are complete, prefix-free and rebuilt identically",
     "For every frequency distribution over the byte values, the computed code lengths satisfy Kraft's equality (one symbol gets length one), codes derived from the lengths are prefix-free, and the decoder rebuilds exactly the same codes from the transmitted shape. "
     "The lengths are optimal: no prefix code for that distribution has a smaller total.",
     ["inputs"], "every frequency vector, 1 to 256 used symbols",
     "Tests use a few distributions; deep (Fibonacci-like) trees, full alphabets and ties are not exhaustively covered.",
     ["Utils.cpp", "HuffmanCoders.cpp", "WaveletTree.hpp"],
     [M("lengths", "utils::calculateHuffmanLengths, calculateCodeLengths"), M("codes", "utils::computeHuffmanCodes, WaveletTree::assignPrefixCodes"), M("shape", "HuffmanEncoder::serializeShape, HuffmanDecoder::deserializeShape")], ["code lengths", "codes"])
prop("C15", "Compression followed by decompression is the identity",
     "For every input file, memory limit, entropy coder, preprocessing option and number of starting points, decompressing the compressed file gives back exactly the input bytes. "
     "The same holds for running the separate preprocessing tool and then the postprocessing tool. The decompressor consumes exactly the compressed stream.",
     ["inputs", "configurations"], "every input, every option combination accepted by the tools",
     "Round-trip tests sample a few generated files with few options; boundaries of block sizes and multi-block streams need specific sizes.",
     ["Compressor.cpp", "Decompressor.cpp", "compress.cpp", "uncompress.cpp", "preprocess.cpp", "postprocess.cpp", "WaveletCoders.cpp", "HuffmanCoders.cpp"],
     [M("block loop", "Compressor::compress, Decompressor::decompress"), M("entropy coders", "WaveletEncoder/WaveletDecoder, HuffmanEncoder/HuffmanDecoder")], ["decompressed file"])
prop("C16", "The entropy-coding tree stores and returns every run exactly",
     "For every non-empty block, building the code tree from its runs, transmitting its shape and its bit vectors, and rebuilding it on the other side returns exactly the same block. "
     "Codes assigned from lengths form a tree in which every symbol has its own leaf at its code length, and encoder and decoder walk the tree in the same order with the same model calls.",
     ["inputs"], "every block, every run-length distribution",
     "Tests push a few strings; rare run lengths, one-symbol blocks and unbalanced trees select different code paths.",
     ["WaveletTree.hpp", "WaveletCoders.cpp"],
     [M("tree", "WaveletTree::assignPrefixCodes, pushRun, message"), M("shape", "WaveletTree::treeShape, readShape"), M("bits", "WaveletTree::encodeTreeBF, decodeTreeBF")], ["restored block"])

NA = {}   # id -> reason
for p in P:
    if not os.path.exists(V + "/props/%s.py" % p["id"]):
        NA.setdefault(p["id"], "no check built yet; work in progress")
with open(V + "/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
checks = []
import importlib
for p in P:
    if p["id"] in NA: continue
    m = importlib.import_module(p["id"])
    checks.append({"property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"], "thorough_cmd": "bash check.sh %s thorough" % p["id"],
                   "technique": getattr(m, "TECHNIQUE", "contracts on functions extracted from the current source, discharged by CBMC (unbounded: full-width unrolling with unwinding assertions, loop invariants); native replay of counterexamples"),
                   "level": m.LEVEL, "level_note": (m.EXPLANATION + " Trusted: " + "; ".join(m.TRUSTED + m.ASSUMPTIONS) + ".")[:1800]})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
           "notes": "Each check extracts the functions from /repo's current tree (clang AST), discharges the contract obligations, and runs the real compiled code against the executable contract as counterexample search and bounded stand-in."},
          open(V + "/MANIFEST.json", "w"), indent=1)
