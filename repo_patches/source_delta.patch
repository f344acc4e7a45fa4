From 84463cbf3ef408bea2673191704aa16c417ac26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:14 +0000
Subject: [PATCH 01/12] fix: do not run pair replacement on blocks of at most
 two bytes

PairReplacer::analyseData requires length > 2, so compressing a one or two
byte block with a preprocessing option aborted.
---
 preprocessors/Precompressor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preprocessors/Precompressor.cpp b/preprocessors/Precompressor.cpp
index 6cf3e3a..f4ae7bb 100644
--- a/preprocessors/Precompressor.cpp
+++ b/preprocessors/Precompressor.cpp
@@ -74,6 +74,8 @@ void Precompressor::precompress(PrecompressorBlock& block) const {
     bool useTempArray = false;
 
     for(size_t i = 0; i < m_preprocessingOptions.size(); ++i) {
+      // Pair analysis needs at least three bytes.
+      if(length <= 2) break;
       char c = m_preprocessingOptions[i];
       double ratio = (double)length/block.originalSize();
       if(ratio < 0.666 && !useTempArray) {
-- 
2.43.0


From 3020a3e3b7c678abd0083c4f2b84745248f8d6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:14 +0000
Subject: [PATCH 02/12] fix: in-place pair replacement lost the last byte of
 very short blocks

When nothing had been flushed before the end (3 or 4 byte input) the final
consume was limited to i = length - 1 bytes.
---
 preprocessors/PairReplacer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessors/PairReplacer.cpp b/preprocessors/PairReplacer.cpp
index 62ccd61..70da503 100644
--- a/preprocessors/PairReplacer.cpp
+++ b/preprocessors/PairReplacer.cpp
@@ -359,7 +359,7 @@ writeReplacedVersion(byte *src, size_t length) const {
     }
     ++i;
   }
-  filled += buffer.consume(src + filled, i);
+  filled += buffer.consume(src + filled, i + 1);
   return filled;
 }
 
-- 
2.43.0


From 34512f48d86117ade5f5816fe32eda3e508d6b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:14 +0000
Subject: [PATCH 03/12] fix: FrequencyTable::increase read past the end of the
 table

The loop compared with entry freqIndex + 1 while only freqIndex < m_last was
checked, so entry 256 (out of bounds) or an already removed key was read.
---
 preprocessors/FrequencyTable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessors/FrequencyTable.cpp b/preprocessors/FrequencyTable.cpp
index fab008c..961b326 100644
--- a/preprocessors/FrequencyTable.cpp
+++ b/preprocessors/FrequencyTable.cpp
@@ -132,7 +132,7 @@ void FrequencyTable::increase(byte key, size_t value) {
   assert(m_frequencies[freqIndex].first == key);
   std::pair<byte, size_t> pair = std::make_pair(key, value);
   
-  while (freqIndex < m_last && value > m_frequencies[freqIndex + 1].second)
+  while (freqIndex + 1 < m_last && value > m_frequencies[freqIndex + 1].second)
   {
     --m_location[m_frequencies[freqIndex + 1].first];
     m_frequencies[freqIndex] = m_frequencies[freqIndex + 1];
-- 
2.43.0


From d931f46203fd74b78570fe3a4c6e615b45f673df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:14 +0000
Subject: [PATCH 04/12] fix: binary codes for ranges of 2^30 values or more

The shift was done in int, so large ranges overflowed and the codes did not
decode.
---
 Utils.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Utils.hpp b/Utils.hpp
index fb75faa..e640cd5 100644
--- a/Utils.hpp
+++ b/Utils.hpp
@@ -122,7 +122,7 @@ static byte logFloor(unsigned long n) {
 template <typename Unsigned>
 byte logCeiling(Unsigned n) {
   byte log = logFloor(n);
-  return static_cast<Unsigned>(1 << log) < n ? log+1 : log;
+  return (static_cast<Unsigned>(1) << log) < n ? log+1 : log;
 }
 
 uint32 mostSignificantBit16(uint32 n);
@@ -240,7 +240,7 @@ void binaryCode(size_t n, size_t lo, size_t hi, BitVector& bits) {
   size_t rangeLen = hi - lo + 1;
   if(rangeLen == 1) return;
   byte codeLength = logCeiling(rangeLen);
-  size_t shortCodewords = (1 << codeLength) - rangeLen;
+  size_t shortCodewords = (static_cast<size_t>(1) << codeLength) - rangeLen;
   size_t longCodewords2 = (rangeLen - shortCodewords)/2;
   if(n - lo < longCodewords2) {
     pushBits(n - lo, codeLength, bits);
@@ -301,7 +301,7 @@ size_t binaryDecode(Input& input, size_t lo, size_t hi) {
   size_t rangeLen = hi - lo + 1;
   if(rangeLen == 1) return lo;
   byte codeLength = logCeiling(rangeLen);
-  size_t shortCodewords = (1 << codeLength) - rangeLen;
+  size_t shortCodewords = (static_cast<size_t>(1) << codeLength) - rangeLen;
   size_t longCodewords2 = (rangeLen - shortCodewords)/2;
   size_t result = 0;
   for(int i = 0; i < codeLength - 1; ++i) {
@@ -322,7 +322,7 @@ size_t binaryDecode(Input& input, size_t lo, size_t hi, size_t *bitsRead) {
   size_t rangeLen = hi - lo + 1;
   if(rangeLen == 1) return lo;
   byte codeLength = logCeiling(rangeLen);
-  size_t shortCodewords = (1 << codeLength) - rangeLen;
+  size_t shortCodewords = (static_cast<size_t>(1) << codeLength) - rangeLen;
   size_t longCodewords2 = (rangeLen - shortCodewords)/2;
   size_t result = 0;
   *bitsRead += codeLength;
-- 
2.43.0


From 04539ecd9b941090483b52d359421ad642334686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:14 +0000
Subject: [PATCH 05/12] fix: packAndWriteInteger wrote nothing for zero

readAndUnpackInteger always reads at least one byte.
---
 Utils.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 87f4ba3..b8b865c 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -58,17 +58,14 @@ static const uint64 kEightBit = 0x80;
 
 unsigned packAndWriteInteger(uint64 integer, byte *to) {
   unsigned bytes_used = 0;
-  while(1) {
-    if(integer) {
-      byte to_written = static_cast<byte>(integer & 0x7F);
-      integer >>= 7;
-      if(integer) to_written |= 0x80;
-      *to++ = to_written;
-      ++bytes_used;
-    } else {
-      return bytes_used;
-    }
-  }
+  do {
+    byte to_written = static_cast<byte>(integer & 0x7F);
+    integer >>= 7;
+    if(integer) to_written |= 0x80;
+    *to++ = to_written;
+    ++bytes_used;
+  } while(integer);
+  return bytes_used;
 }
 
 /* Returns the bytes used for the integer */
-- 
2.43.0


From d8594aeaa2812e170722f65de3c2d6be2f869e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:14 +0000
Subject: [PATCH 06/12] fix: SimpleMarkov history had one context too few

The all-ones context indexed one past the end of the array.
---
 probmodels/ProbabilityModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probmodels/ProbabilityModel.cpp b/probmodels/ProbabilityModel.cpp
index 9db31af..3be8f78 100644
--- a/probmodels/ProbabilityModel.cpp
+++ b/probmodels/ProbabilityModel.cpp
@@ -88,7 +88,7 @@ template <typename UnsignedInt>
 SimpleMarkov<UnsignedInt>::SimpleMarkov() :
     m_prev(static_cast<UnsignedInt>(0)), m_history(0)
 {
-  uint64 size = (static_cast<uint64>(1) << 8*sizeof(UnsignedInt)) - 1;
+  uint64 size = static_cast<uint64>(1) << 8*sizeof(UnsignedInt);
   m_history = new char[size];
   std::fill(m_history, m_history + size, 0);
 }
@@ -123,7 +123,7 @@ template <typename UnsignedInt>
 void SimpleMarkov<UnsignedInt>::resetModel() {
   /* Seems to work better when not resetting the model for different
    * contexts. */
-  uint64 size = (static_cast<uint64>(1) << 8*sizeof(UnsignedInt)) - 1;
+  uint64 size = static_cast<uint64>(1) << 8*sizeof(UnsignedInt);
   std::fill(m_history, m_history + size, 0);
 }
 
-- 
2.43.0


From 198210f2140afafca14faa5df11d29114f8661cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:09 +0000
Subject: [PATCH 07/12] fix: SimpleMarkov shifted by a negative amount

For contexts with more zeros than ones the shift count 2*history is negative,
which is undefined.
---
 probmodels/ProbabilityModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probmodels/ProbabilityModel.cpp b/probmodels/ProbabilityModel.cpp
index 3be8f78..bf206a5 100644
--- a/probmodels/ProbabilityModel.cpp
+++ b/probmodels/ProbabilityModel.cpp
@@ -116,7 +116,7 @@ template <typename UnsignedInt>
 Probability SimpleMarkov<UnsignedInt>::probabilityOfOne() const {
   Probability val = kProbabilityScale >> (kLogProbabilityScale/2);
   if (m_history[m_prev] > 0) return val << 2*m_history[m_prev];
-  else return val >> 2*m_history[m_prev];
+  else return val >> -2*m_history[m_prev];
 }
 
 template <typename UnsignedInt>
-- 
2.43.0


From 9f38fc49190cd0779b0ddba13c5a55b7ba61fd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:38 +0000
Subject: [PATCH 08/12] fix: memory limits above 11.6 GB aborted every
 compression

---
 Compressor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Compressor.cpp b/Compressor.cpp
index 0ca118a..3503e88 100644
--- a/Compressor.cpp
+++ b/Compressor.cpp
@@ -76,7 +76,7 @@ size_t Compressor::compress(size_t threads) {
    * enough to be on the safe side). */
   size_t pbBlockSize = static_cast<size_t>(m_options.memLimit*0.74);
   size_t bwtBlockSize = std::min(static_cast<size_t>(m_options.memLimit*0.185),
-                                 static_cast<size_t>(0x7fffffff - 1));
+                                 static_cast<size_t>(0x7fffffff - 2));
 
   if(m_precompressor.options().size() == 0) pbBlockSize = bwtBlockSize;
   
@@ -94,7 +94,7 @@ size_t Compressor::compress(size_t threads) {
      */
     if(pbBlockSize != bwtBlockSize) {
       size_t s = (m_options.memLimit - pb->size())/4.5;
-      bwtBlockSize = std::min(s,static_cast<size_t>(0x7fffffff - 1));
+      bwtBlockSize = std::min(s,static_cast<size_t>(0x7fffffff - 2));
     }
     
     pb->sliceIntoBlocks(bwtBlockSize);
-- 
2.43.0


From 894538b565a51e0d6251fce11c632bcacf46c8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:45 +0000
Subject: [PATCH 09/12] fix: analyse all of a block longer than 4 GiB

The loop bound was masked with a 32-bit constant, so pair analysis looked
at a few bytes only and symbols in use were taken for free ones.
---
 preprocessors/PairReplacer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessors/PairReplacer.cpp b/preprocessors/PairReplacer.cpp
index 70da503..6d8194a 100644
--- a/preprocessors/PairReplacer.cpp
+++ b/preprocessors/PairReplacer.cpp
@@ -55,7 +55,7 @@ void PairReplacer::analyseData(const byte *data, size_t length, bool reset) {
   size_t i = 0;
   if(!m_analysationStarted) beginAnalysing(data[i++], reset);
 
-  for(; i < ((length-1) & 0xfffffffe); ++i) {
+  for(; i < ((length-1) & ~static_cast<size_t>(1)); ++i) {
     analyseData0(data[i]);
     analyseData(data[++i]);
   }
-- 
2.43.0


From 5a176dafcf464a60f0e670de6ec1940d53371fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:45 +0000
Subject: [PATCH 10/12] fix: do not truncate symbol frequencies to 32 bits

A symbol occurring 2^32 times in a block was reported as unused.
---
 preprocessors/FrequencyTable.cpp | 4 ++--
 preprocessors/FrequencyTable.hpp | 4 ++--
 preprocessors/PairReplacer.cpp   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/preprocessors/FrequencyTable.cpp b/preprocessors/FrequencyTable.cpp
index 961b326..ed157ad 100644
--- a/preprocessors/FrequencyTable.cpp
+++ b/preprocessors/FrequencyTable.cpp
@@ -75,12 +75,12 @@ void FrequencyTable::initialize(size_t* frequencies) {
   initLocations();
 }
 
-uint32 FrequencyTable::getFrequency(int i) const {
+size_t FrequencyTable::getFrequency(int i) const {
   assert(i >= 0 && i < m_last);
   return m_frequencies[i].second;
 }
 
-uint32 FrequencyTable::getFrequencyWithKey(byte key) const {
+size_t FrequencyTable::getFrequencyWithKey(byte key) const {
   return m_frequencies[m_location[key]].second;
 }
 
diff --git a/preprocessors/FrequencyTable.hpp b/preprocessors/FrequencyTable.hpp
index d948438..52a4c7c 100644
--- a/preprocessors/FrequencyTable.hpp
+++ b/preprocessors/FrequencyTable.hpp
@@ -48,9 +48,9 @@ class FrequencyTable {
   void initialize(size_t* frequencies);
 
   /** Returns the i:th lowest freq*/
-  uint32 getFrequency(int i) const; 
+  size_t getFrequency(int i) const; 
 
-  uint32 getFrequencyWithKey(byte key) const;
+  size_t getFrequencyWithKey(byte key) const;
 
   /** Returns the key which has i:th lowest freq*/
   byte getKey(int i) const; 
diff --git a/preprocessors/PairReplacer.cpp b/preprocessors/PairReplacer.cpp
index 6d8194a..a310303 100644
--- a/preprocessors/PairReplacer.cpp
+++ b/preprocessors/PairReplacer.cpp
@@ -154,7 +154,7 @@ int64 PairReplacer::findReplaceables(size_t startingPair,
     }
     assert(!m_grammar.isSpecial(freqs.getKey(currentSymbol)));
 
-    uint32 fr = freqs.getFrequency(currentSymbol);
+    size_t fr = freqs.getFrequency(currentSymbol);
 
     if(fr + 1003 >= pairs[currentPair].first || withoutNew == 0) {
       hope = false;
@@ -219,7 +219,7 @@ int64 PairReplacer::findReplaceables(size_t startingPair,
       }
       assert(!m_grammar.isSpecial(freqs.getKey(currentSymbol)));
 
-      uint32 fr = freqs.getFrequency(currentSymbol);
+      size_t fr = freqs.getFrequency(currentSymbol);
       
       if(fr + 1003 >= pairs[currentPair].first) {
         hope = false;
-- 
2.43.0


From d8227f631b1f9294aad16408a1444fbae471020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:29 +0000
Subject: [PATCH 11/12] fix: in-place pair replacement could overrun its buffer
 on the last byte

When the last byte of a block expands to a special pair and the output
buffer has exactly one free slot, the second byte overwrote the oldest
buffered one (and the assertion in CircularBuffer::consume fired).
---
 preprocessors/PairReplacer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessors/PairReplacer.cpp b/preprocessors/PairReplacer.cpp
index a310303..7c5d349 100644
--- a/preprocessors/PairReplacer.cpp
+++ b/preprocessors/PairReplacer.cpp
@@ -351,6 +351,7 @@ writeReplacedVersion(byte *src, size_t length) const {
       pair = (src[i] << 8) | 0;
       if(((replValue = m_replacements[pair]) & 0xff) != m_commonByte) {
         buffer.push(replValue >> 8);
+        if(buffer.full()) filled += buffer.consume(src + filled, i - filled);
         buffer.push(replValue & 0xff);
       } else {
         buffer.push(src[i]);
-- 
2.43.0


From c30226a9eff130d870ce10bcfe74557bb1e9eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:18 +0000
Subject: [PATCH 12/12] fix: Huffman coder lost the start of the buffer on runs
 of 2^29 bytes or more

---
 HuffmanCoders.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/HuffmanCoders.cpp b/HuffmanCoders.cpp
index 5fcb2f0..a205c16 100644
--- a/HuffmanCoders.cpp
+++ b/HuffmanCoders.cpp
@@ -230,6 +230,17 @@ encodeData(const byte* block, const std::vector<uint32>& stats,
     bitsInBuffer = 0;
     for (uint64 k = 0; k < nRuns; ++k) {
       int gammaCodeLen = utils::logFloor(runlen[k]) * 2 + 1;
+      // Codes longer than 57 bits don't fit next to up to 7 bits left in the
+      // buffer, so their leading zeros are added separately.
+      int zeros = (gammaCodeLen > 57) ? gammaCodeLen - 57 : 0;
+      while (bitsInBuffer + zeros > 64) {
+        bitsInBuffer -= 8;
+        out->writeByte((buffer >> bitsInBuffer) & 0xff);
+        ++m_compressedBlockLength;
+      }
+      buffer <<= zeros;
+      bitsInBuffer += zeros;
+      gammaCodeLen -= zeros;
       while (bitsInBuffer + gammaCodeLen > 64) {
         bitsInBuffer -= 8;
         out->writeByte((buffer >> bitsInBuffer) & 0xff);
-- 
2.43.0

