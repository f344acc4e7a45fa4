// shared by the native harnesses: in-memory streams and the repository in one translation unit
#pragma once
#include "native.h"
#include "all_repo.inc"
namespace bwtc { int verbosity = 0; }
using namespace bwtc;
struct MemOut : OutStream {
  std::vector<byte> d;
  void writeByte(byte b) { d.push_back(b); }
  void writeBlock(const byte *b, const byte *e) { d.insert(d.end(), b, e); }
  long int getPos() { return d.size(); }
  void write48bits(uint64 v, long int p) { for (int i = 0; i < 6; ++i) d[p + i] = (v >> (8 * (5 - i))) & 0xff; }
  void flush() {}
};
struct MemIn : InStream {
  std::vector<byte> d; size_t p; unsigned bits; uint16 buf;
  MemIn() : p(0), bits(0), buf(0) {}
  MemIn(const std::vector<byte> &v) : d(v), p(0), bits(0), buf(0) {}
  byte nx() { if (p >= d.size()) vp::fail("reader runs past what the writer wrote"); return d[p++]; }
  size_t readBlock(byte *t, size_t n) { size_t k = std::min(n, d.size() - p); std::copy(d.begin() + p, d.begin() + p + k, t); p += k; return k; }
  bool readBit() { if (!bits) { buf = nx(); bits = 8; } return (buf >> --bits) & 1; }
  byte readByte() { buf = (buf << 8) | nx(); return (buf >> bits) & 0xff; }
  void flushBuffer() { bits = 0; }
  uint64 read48bits() { uint64 v = 0; for (int i = 0; i < 6; ++i) v = (v << 8) | nx(); return v; }
  bool compressedDataEnding() { return p >= d.size(); }
};
struct Bits {
  std::vector<bool> v; size_t p; Bits() : p(0) {}
  void push_back(bool b) { v.push_back(b); }
  bool readBit() { if (p >= v.size()) vp::fail("bit reader runs past what the writer wrote"); return v[p++]; }
  byte readByte() { unsigned r = 0; for (int i = 0; i < 8; ++i) r = (r << 1) | readBit(); return r; }
};
