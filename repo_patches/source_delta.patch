From 356869e24f3fee35744834a2588b6c221f6aa0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:55 +0000
Subject: [PATCH 01/12] fix: allocate a history cell for every value of the
 Markov context

The context is any value of UnsignedInt, but the table held one cell less,
so the all-ones context read and wrote past the end of the allocation.
---
 probmodels/ProbabilityModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probmodels/ProbabilityModel.cpp b/probmodels/ProbabilityModel.cpp
index 9db31af..3be8f78 100644
--- a/probmodels/ProbabilityModel.cpp
+++ b/probmodels/ProbabilityModel.cpp
@@ -88,7 +88,7 @@ template <typename UnsignedInt>
 SimpleMarkov<UnsignedInt>::SimpleMarkov() :
     m_prev(static_cast<UnsignedInt>(0)), m_history(0)
 {
-  uint64 size = (static_cast<uint64>(1) << 8*sizeof(UnsignedInt)) - 1;
+  uint64 size = static_cast<uint64>(1) << 8*sizeof(UnsignedInt);
   m_history = new char[size];
   std::fill(m_history, m_history + size, 0);
 }
@@ -123,7 +123,7 @@ template <typename UnsignedInt>
 void SimpleMarkov<UnsignedInt>::resetModel() {
   /* Seems to work better when not resetting the model for different
    * contexts. */
-  uint64 size = (static_cast<uint64>(1) << 8*sizeof(UnsignedInt)) - 1;
+  uint64 size = static_cast<uint64>(1) << 8*sizeof(UnsignedInt);
   std::fill(m_history, m_history + size, 0);
 }
 
-- 
2.43.0


From 3d37f4064c20a83fb670b0c5b475c3a3879ddea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:55 +0000
Subject: [PATCH 02/12] fix: do not shift by a negative amount in SimpleMarkov

The history counter is negative when zeros dominate, and shifting by a
negative amount is undefined behaviour.
---
 probmodels/ProbabilityModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probmodels/ProbabilityModel.cpp b/probmodels/ProbabilityModel.cpp
index 3be8f78..bf206a5 100644
--- a/probmodels/ProbabilityModel.cpp
+++ b/probmodels/ProbabilityModel.cpp
@@ -116,7 +116,7 @@ template <typename UnsignedInt>
 Probability SimpleMarkov<UnsignedInt>::probabilityOfOne() const {
   Probability val = kProbabilityScale >> (kLogProbabilityScale/2);
   if (m_history[m_prev] > 0) return val << 2*m_history[m_prev];
-  else return val >> 2*m_history[m_prev];
+  else return val >> -2*m_history[m_prev];
 }
 
 template <typename UnsignedInt>
-- 
2.43.0


From d9c41d6c8429a1347727037acde6ce52ef02674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:55 +0000
Subject: [PATCH 03/12] fix: FrequencyTable::increase read one entry past the
 table

---
 preprocessors/FrequencyTable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessors/FrequencyTable.cpp b/preprocessors/FrequencyTable.cpp
index fab008c..961b326 100644
--- a/preprocessors/FrequencyTable.cpp
+++ b/preprocessors/FrequencyTable.cpp
@@ -132,7 +132,7 @@ void FrequencyTable::increase(byte key, size_t value) {
   assert(m_frequencies[freqIndex].first == key);
   std::pair<byte, size_t> pair = std::make_pair(key, value);
   
-  while (freqIndex < m_last && value > m_frequencies[freqIndex + 1].second)
+  while (freqIndex + 1 < m_last && value > m_frequencies[freqIndex + 1].second)
   {
     --m_location[m_frequencies[freqIndex + 1].first];
     m_frequencies[freqIndex] = m_frequencies[freqIndex + 1];
-- 
2.43.0


From 4d94efadae61836b5cefd5cd7b6daa32235a55d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:55 +0000
Subject: [PATCH 04/12] fix: report failed writes instead of losing output
 silently

A full disk, a closed pipe or an unseekable output (compress -c to a pipe)
produced a damaged file and exit status 0.
---
 Streams.cpp | 31 +++++++++++++++++++------------
 Streams.hpp |  2 ++
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/Streams.cpp b/Streams.cpp
index 7f9cd35..6e2454c 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -26,6 +26,7 @@
  */
 
 #include <cassert>
+#include <cstdlib>
 
 #include <fstream>
 #include <iostream>
@@ -62,34 +63,39 @@ RawOutStream::RawOutStream(const std::string& file_name)
 
 RawOutStream::~RawOutStream() {
   PROFILE("RawOutStream::~RawOutStream()");
-  if (m_filled > 0) {
-    flush();
-  }
+  flush();
   if (m_fileptr != stdout) {
-    fclose(m_fileptr);
+    if (fclose(m_fileptr) != 0) fail();
   }
   delete[] m_buffer;
 }
 
+void RawOutStream::fail() const {
+  perror(m_name != "" ? m_name.c_str() : "stdout");
+  exit(1);
+}
+
 void RawOutStream::writeByte(byte b) {
   m_buffer[m_filled++] = b;
   if (m_filled == kBufferSize) {
-    fwrite(m_buffer, 1, m_filled, m_fileptr);
+    if (fwrite(m_buffer, 1, m_filled, m_fileptr) != m_filled) fail();
     m_filled = 0;
   }
 }
 
 void RawOutStream::flush() {
   if (m_filled > 0) {
-    fwrite(m_buffer, 1, m_filled, m_fileptr);
+    if (fwrite(m_buffer, 1, m_filled, m_fileptr) != m_filled) fail();
     m_filled = 0;
   }
-  fflush(m_fileptr);
+  if (fflush(m_fileptr) != 0) fail();
 }
 
 long int RawOutStream::getPos() {
   flush();
-  return ftell(m_fileptr);
+  long int pos = ftell(m_fileptr);
+  if (pos < 0) fail();
+  return pos;
 }
 
 void RawOutStream::writeBlock(const byte *begin, const byte *end) {
@@ -99,7 +105,7 @@ void RawOutStream::writeBlock(const byte *begin, const byte *end) {
     m_filled += size;
   } else {
     flush();
-    fwrite(begin, 1, size, m_fileptr);
+    if (fwrite(begin, 1, size, m_fileptr) != size) fail();
   }
 }
 
@@ -107,13 +113,14 @@ void RawOutStream::write48bits(uint64 to_written, long int position) {
   assert((to_written & (((uint64)0xFFFF) << 48)) == 0);
   flush();
   long int current = ftell(m_fileptr);
+  if (current < 0) fail();
   // fseeking with negative offset from SEEK_CUR might be faster.
-  fseek(m_fileptr, position, SEEK_SET);
+  if (fseek(m_fileptr, position, SEEK_SET) != 0) fail();
   for(int i = 5; i >= 0; --i) {
     byte b = 0xFF & (to_written >> i*8);
-    fputc(b, m_fileptr);
+    if (fputc(b, m_fileptr) == EOF) fail();
   }
-  fseek(m_fileptr, current, SEEK_SET);
+  if (fseek(m_fileptr, current, SEEK_SET) != 0) fail();
 }
 
 uint64 RawInStream::read48bits() {
diff --git a/Streams.hpp b/Streams.hpp
index 236c4c4..8e808f0 100644
--- a/Streams.hpp
+++ b/Streams.hpp
@@ -103,6 +103,8 @@ class RawOutStream : public OutStream {
   uint32 m_filled;
   byte *m_buffer;
 
+  /* Reports the error of the last operation and exits unsuccessfully. */
+  void fail() const;
   RawOutStream& operator=(const RawOutStream& os);
   RawOutStream(const RawOutStream& os);
 };
-- 
2.43.0


From 1a29a3fcc1527ad6b3564c7aff61b61f45a58896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:55 +0000
Subject: [PATCH 05/12] fix: do not take a read error for the end of the input

compress of an unreadable input (for example a directory) produced a valid
archive of a truncated input and exit status 0.
---
 Streams.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Streams.cpp b/Streams.cpp
index 6e2454c..40aaecd 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -175,6 +175,10 @@ int32 RawInStream::fetchByte() {
   if (m_bigbuf_left <= 0) {
     m_bigbuf_pos = 0;
     m_bigbuf_left = fread(m_bigbuf, 1, kBigbufSize, m_fileptr);
+    if (ferror(m_fileptr)) {
+      perror(m_name != "" ? m_name.c_str() : "stdin");
+      exit(1);
+    }
     if (m_bigbuf_left <= 0) return EOF;
   }
   --m_bigbuf_left;
@@ -185,6 +189,10 @@ int32 RawInStream::peekByte() {
   if (m_bigbuf_left <= 0) {
     m_bigbuf_pos = 0;
     m_bigbuf_left = fread(m_bigbuf, 1, kBigbufSize, m_fileptr);
+    if (ferror(m_fileptr)) {
+      perror(m_name != "" ? m_name.c_str() : "stdin");
+      exit(1);
+    }
     if (m_bigbuf_left <= 0) return EOF;
   }
   return m_bigbuf[m_bigbuf_pos];
-- 
2.43.0


From 44c70edc3cd266b2b8dba670e300df427930fa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:28 +0000
Subject: [PATCH 06/12] fix: a truncated archive is an error, not data

Bytes past the end of the input were decoded as 0xFF and uncompress could
exit successfully with wrong or missing output.
---
 HuffmanCoders.cpp      |  1 -
 PrecompressorBlock.cpp |  6 +++++-
 Streams.cpp            | 12 +++++++++++-
 Streams.hpp            |  6 ++++--
 WaveletCoders.cpp      |  2 --
 5 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/HuffmanCoders.cpp b/HuffmanCoders.cpp
index 5fcb2f0..fea4e32 100644
--- a/HuffmanCoders.cpp
+++ b/HuffmanCoders.cpp
@@ -337,7 +337,6 @@ readBlockHeader(BWTBlock& block, std::vector<uint64>* stats, InStream* in) {
 
 void HuffmanDecoder::decodeBlock(BWTBlock& block, InStream* in) {
   PROFILE("HuffmanDecoder::decodeBlock");
-  if(in->compressedDataEnding()) return;
 
   std::vector<uint64> context_lengths;
   uint64 compr_len = readBlockHeader(block, &context_lengths, in);
diff --git a/PrecompressorBlock.cpp b/PrecompressorBlock.cpp
index e74b5db..bb6c04f 100644
--- a/PrecompressorBlock.cpp
+++ b/PrecompressorBlock.cpp
@@ -30,6 +30,7 @@
 #include "Utils.hpp"
 
 #include <cassert>
+#include <cstdio>
 #include <cstdlib>
 
 namespace bwtc {
@@ -113,7 +114,10 @@ readBlockHeader(InStream* in, MetaData metadata) {
     if(compressedSize != 0) {
       pb->grammar().readGrammar(in);
       uint64 read = in->readBlock(pb->begin(), compressedSize);
-      assert(read == compressedSize);
+      if(read != compressedSize) {
+        fprintf(stderr, "Unexpected end of input\n");
+        exit(1);
+      }
       pb->setSize(read);
     }
     return pb;
diff --git a/Streams.cpp b/Streams.cpp
index 40aaecd..44ae349 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -127,7 +127,7 @@ uint64 RawInStream::read48bits() {
   uint64 result = 0;
   for(int i = 0; i < 6; ++i) {
     result <<= 8;
-    result |= static_cast<byte>(fetchByte());
+    result |= needByte();
   }
   return result;
 }
@@ -185,6 +185,16 @@ int32 RawInStream::fetchByte() {
   return m_bigbuf[m_bigbuf_pos++];
 }
 
+byte RawInStream::needByte() {
+  int32 c = fetchByte();
+  if (c == EOF) {
+    fprintf(stderr, "%s: unexpected end of file\n",
+            m_name != "" ? m_name.c_str() : "stdin");
+    exit(1);
+  }
+  return static_cast<byte>(c);
+}
+
 int32 RawInStream::peekByte() {
   if (m_bigbuf_left <= 0) {
     m_bigbuf_pos = 0;
diff --git a/Streams.hpp b/Streams.hpp
index 8e808f0..755e65d 100644
--- a/Streams.hpp
+++ b/Streams.hpp
@@ -121,7 +121,7 @@ class RawInStream : public InStream {
 
   virtual inline bool readBit() {
     if (m_bitsInBuffer == 0) {
-      m_buffer = static_cast<byte>(fetchByte());
+      m_buffer = needByte();
       m_bitsInBuffer = 8;
     }
     return (m_buffer >> --m_bitsInBuffer) & 1;
@@ -129,7 +129,7 @@ class RawInStream : public InStream {
 
   virtual inline byte readByte() {
     assert(m_bitsInBuffer < 8);
-    byte nextByte = static_cast<byte>(fetchByte());
+    byte nextByte = needByte();
     m_buffer = (m_buffer << 8) | nextByte;
     return (m_buffer >> m_bitsInBuffer) & 0xff;
   }
@@ -166,6 +166,8 @@ class RawInStream : public InStream {
   uint32 m_bigbuf_pos;
 
   int fetchByte();
+  /* Like fetchByte but the end of the input is an error. */
+  byte needByte();
   int peekByte();
   RawInStream& operator=(const RawInStream& os);
   RawInStream(const RawInStream& os);
diff --git a/WaveletCoders.cpp b/WaveletCoders.cpp
index d647adc..d0d171f 100644
--- a/WaveletCoders.cpp
+++ b/WaveletCoders.cpp
@@ -245,8 +245,6 @@ WaveletDecoder::readBlockHeader(BWTBlock& block, std::vector<uint64>* stats,
 
 void WaveletDecoder::decodeBlock(BWTBlock& block, InStream* in) {
   PROFILE("WaveletDecoder::decodeBlock");
-  if(in->compressedDataEnding()) return;
-
   std::vector<uint64> context_lengths;
   uint64 compr_len = readBlockHeader(block, &context_lengths, in);
 
-- 
2.43.0


From fd676a3df601595fd8de8eb8e065f2eb345c2f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:33 +0000
Subject: [PATCH 07/12] fix: do not run the pair replacer on blocks of one or
 two bytes

It asserts that the block is longer than that, and without assertions reads
past the end of the block.
---
 preprocessors/Precompressor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocessors/Precompressor.cpp b/preprocessors/Precompressor.cpp
index 6cf3e3a..b3a0dcd 100644
--- a/preprocessors/Precompressor.cpp
+++ b/preprocessors/Precompressor.cpp
@@ -73,7 +73,8 @@ void Precompressor::precompress(PrecompressorBlock& block) const {
     size_t oldLength = length;
     bool useTempArray = false;
 
-    for(size_t i = 0; i < m_preprocessingOptions.size(); ++i) {
+    // Pairs are analysed only from data of at least three bytes
+    for(size_t i = 0; i < m_preprocessingOptions.size() && length > 2; ++i) {
       char c = m_preprocessingOptions[i];
       double ratio = (double)length/block.originalSize();
       if(ratio < 0.666 && !useTempArray) {
-- 
2.43.0


From fd15d2c816f161d06e7ddcfed3e29c96adf845af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:18 +0000
Subject: [PATCH 08/12] fix: bitsForIntegers walked past the end of notRemoved

notRemoved holds one entry per frequency, so it can be smaller than the
number of integers (for example for "abbccc"); the bytes after the map then
decided the code lengths.
---
 WaveletTree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/WaveletTree.hpp b/WaveletTree.hpp
index 6b3fa7b..1cbfd2b 100644
--- a/WaveletTree.hpp
+++ b/WaveletTree.hpp
@@ -1593,7 +1593,8 @@ uint64 WaveletTree<BitVector>::bitsForIntegers(
   // We need at least 'depthForFixedCodes' integers to Huffman tree
   if(depthForFixedCodes > codeLengths.size()) {
     std::map<uint64, uint32>::const_reverse_iterator it = notRemoved.rbegin();
-    for(int i = 0; i< (int)(depthForFixedCodes-codeLengths.size()); ++i, ++it){
+    for(int i = 0; i< (int)(depthForFixedCodes-codeLengths.size())
+            && it != notRemoved.rend(); ++i, ++it){
       removed[it->second] = true;
       codeLengths.push_back(integerFrequencies[it->second]);
       if(minFreq == 0 || minFreq > it->first) {
-- 
2.43.0


From 7cc537015e6b86dab57ce2f7cdd4df6c1dbef0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:18 +0000
Subject: [PATCH 09/12] fix: free the initial root when the shape of a wavelet
 tree is read

Every section decoded leaked one tree node.
---
 WaveletTree.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/WaveletTree.hpp b/WaveletTree.hpp
index 1cbfd2b..0f06e06 100644
--- a/WaveletTree.hpp
+++ b/WaveletTree.hpp
@@ -296,7 +296,7 @@ WaveletTree<BitVector>::WaveletTree(const byte *src, size_t length) :
 #ifdef ENTROPY_PROFILER
     m_bytesForCharacters(0), m_bytesForRuns(0),
 #endif
-    m_W(0)
+    m_root(0), m_W(0)
 {
   PROFILE("WaveletTree::WaveletTree");
   uint64 runFreqs[256] = {0};
@@ -362,10 +362,11 @@ WaveletTree<BitVector>::WaveletTree(const byte *src, size_t length) :
 #else //ifndef OPTIMIZED_INTEGER_CODE
 
 template <typename BitVector>
-WaveletTree<BitVector>::WaveletTree(const byte *src, size_t length)
+WaveletTree<BitVector>::WaveletTree(const byte *src, size_t length) :
 #ifdef ENTROPY_PROFILER
-    : m_bytesForCharacters(0), m_bytesForRuns(0)
+    m_bytesForCharacters(0), m_bytesForRuns(0),
 #endif
+    m_root(0)
 {
   PROFILE("WaveletTree::WaveletTree");
   uint64 runFreqs[256] = {0};
@@ -1442,6 +1443,7 @@ void WaveletTree<BitVector>::assignPrefixCodes(
     std::vector<std::pair<uint64, uint32> >& lengths)
 {
   std::sort(lengths.begin(), lengths.end());
+  if(m_root) destroy(m_root);
   m_root = new TreeNode<BitVector>();
   assignPrefixCodes(lengths, m_root, 0, 0);
 }
-- 
2.43.0


From dd93bff3d8ab7e60fcba9153a292b146f36201a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:14 +0000
Subject: [PATCH 10/12] fix: pair replacer dropped the last byte of three-byte
 blocks

The buffer may hold the whole block when the last byte has been read, but
at most one byte less was written back.
---
 preprocessors/PairReplacer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessors/PairReplacer.cpp b/preprocessors/PairReplacer.cpp
index 62ccd61..9013632 100644
--- a/preprocessors/PairReplacer.cpp
+++ b/preprocessors/PairReplacer.cpp
@@ -359,7 +359,7 @@ writeReplacedVersion(byte *src, size_t length) const {
     }
     ++i;
   }
-  filled += buffer.consume(src + filled, i);
+  filled += buffer.consume(src + filled, length - filled);
   return filled;
 }
 
-- 
2.43.0


From 191c804df3e26c656504bbb2ccc60bedae109e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:42 +0000
Subject: [PATCH 11/12] fix: running out of memory in the Burrows-Wheeler
 transforms was ignored

---
 bwtransforms/Divsufsorter.hpp | 16 +++++++++++++---
 bwtransforms/sais.hxx         |  3 +++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/bwtransforms/Divsufsorter.hpp b/bwtransforms/Divsufsorter.hpp
index 140b1b2..f194bcf 100644
--- a/bwtransforms/Divsufsorter.hpp
+++ b/bwtransforms/Divsufsorter.hpp
@@ -30,6 +30,8 @@
 #include <cassert>
 
 #include <algorithm>
+#include <new>
+#include <stdexcept>
 #include <vector>
 
 #include "BWTransform.hpp"
@@ -54,21 +56,29 @@ class Divsufsorter : public BWTransform {
   void
   doTransform(byte *begin, uint32 length, std::vector<uint32>& LFpowers) const {
     PROFILE("Divsufsorter::doTransform");
-    divbwt(begin, begin, 0, length, &LFpowers[0], LFpowers.size());
+    checkResult(divbwt(begin, begin, 0, length, &LFpowers[0],
+                       LFpowers.size()));
   }
 
   void
   doTransform(byte *begin, uint32 length, std::vector<uint32>& LFpowers,
               uint32 *freqs) const {
     PROFILE("Divsufsorter::doTransform");
-    divbwtf(begin, begin, 0, length, &LFpowers[0], LFpowers.size(), freqs);
+    checkResult(divbwtf(begin, begin, 0, length, &LFpowers[0],
+                        LFpowers.size(), freqs));
   }
 
   /* The following values aren't correct */
   virtual uint64 maxSizeInBytes(uint64) const { return 0; }
   virtual uint64 maxBlockSize(uint64) const { return 0; }
   virtual uint64 suggestedBlockSize(uint64) const { return 0; }
-  
+
+ private:
+  /* Negative result means that the data was not transformed. */
+  static void checkResult(int result) {
+    if(result == -2) throw std::bad_alloc();
+    if(result < 0) throw std::invalid_argument("divsufsort");
+  }
 };
 } // namespace bwtc
 
diff --git a/bwtransforms/sais.hxx b/bwtransforms/sais.hxx
index e9dd4f7..ee2f433 100644
--- a/bwtransforms/sais.hxx
+++ b/bwtransforms/sais.hxx
@@ -33,6 +33,7 @@
 #include <cassert>
 #include <iterator>
 #include <limits>
+#include <new>
 
 #ifdef __INTEL_COMPILER
 #pragma warning(disable : 383 981 1418)
@@ -793,6 +794,7 @@ index_type i, pidx;
     pidx = saisxx_private::suffixsort(T, A, 0, n, k, true, LFpowers);
   }
 
+  if(pidx == -2) { throw std::bad_alloc(); }
   if(0 <= pidx) {
     for(i = 0; i < n; ++i) {
       if(i != pidx) U[i] = (char_type)A[i];
@@ -819,6 +821,7 @@ index_type i, pidx;
     pidx = saisxx_private::suffixsort(T, A, 0, n, k, true, LFpowers);
   }
 
+  if(pidx == -2) { throw std::bad_alloc(); }
   if(0 <= pidx) {
     for(i = 0; i < n; ++i) {
       if(i != pidx) {
-- 
2.43.0


From ac0d614d1dcb440c108ad0815c9dd0bc0b768140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:56 +0000
Subject: [PATCH 12/12] fix: failed allocations of block buffers were not
 noticed

---
 PrecompressorBlock.cpp | 9 ++++++++-
 Utils.hpp              | 6 +++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/PrecompressorBlock.cpp b/PrecompressorBlock.cpp
index bb6c04f..d370601 100644
--- a/PrecompressorBlock.cpp
+++ b/PrecompressorBlock.cpp
@@ -32,19 +32,25 @@
 #include <cassert>
 #include <cstdio>
 #include <cstdlib>
+#include <new>
 
 namespace bwtc {
 
 PrecompressorBlock::PrecompressorBlock(size_t size)
     : m_data((byte*)malloc(sizeof(byte)*(size+1))), m_used(0),
-      m_originalSize(size), m_reserved(size+1) {}
+      m_originalSize(size), m_reserved(size+1)
+{
+  if(!m_data) throw std::bad_alloc();
+}
 
 PrecompressorBlock::PrecompressorBlock(size_t maxSize, InStream* in)
     : m_data((byte*)malloc(sizeof(byte)*(maxSize+1))), m_used(0),
       m_originalSize(0), m_reserved(maxSize+1)
 {
+  if(!m_data) throw std::bad_alloc();
   uint64 read = in->readBlock(m_data, maxSize);
   m_data = (byte*)realloc(m_data, sizeof(byte)*(read+1));
+  if(!m_data) throw std::bad_alloc();
   m_reserved = read + 1;
   m_originalSize = m_used = read;
 }
@@ -59,6 +65,7 @@ void PrecompressorBlock::setSize(size_t size) {
     m_used = size;
     m_reserved = size+1;
     m_data = (byte*)realloc(m_data, sizeof(byte)*(m_reserved));
+    if(!m_data) throw std::bad_alloc();
   }
 }
 
diff --git a/Utils.hpp b/Utils.hpp
index fb75faa..7616f0a 100644
--- a/Utils.hpp
+++ b/Utils.hpp
@@ -32,6 +32,7 @@
 #include <cassert>
 #include <iostream>
 #include <map>
+#include <new>
 #include <stack>
 #include <utility>
 #include <vector>
@@ -49,7 +50,10 @@ class CircularBuffer {
  public:
   explicit CircularBuffer(size_t len)
       : m_length(len), m_data((T*)malloc(sizeof(T)*len)), m_head(0),
-        m_start(0), m_inBuffer(0) {}
+        m_start(0), m_inBuffer(0)
+  {
+    if(!m_data) throw std::bad_alloc();
+  }
 
   ~CircularBuffer() { free(m_data); }
 
-- 
2.43.0

