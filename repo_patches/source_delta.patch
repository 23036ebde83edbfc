From 5be08f8552992ee9075e926e342ee6089cde2e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:21 +0000
Subject: [PATCH 01/15] fix: utf8_to_unicode no longer reports a truncated
 sequence as longer than its input

A sequence cut off by the end of the input was reported as one byte longer
than the bytes that exist, so transform_to_unicode (and with it the pattern
parser) stepped over the end iterator and kept reading past the pattern.
---
 include/unicode.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/unicode.h b/include/unicode.h
index 47bfe35..d8c6402 100644
--- a/include/unicode.h
+++ b/include/unicode.h
@@ -23,8 +23,9 @@
 
 #define CONTINUATION(cp, i, end, used) \
   if (++i == end) { \
+    /* truncated, so the last of the used bytes does not exist */ \
     cp = -1; \
-    return used; \
+    return used-1; \
   } \
   b = *i & 0xFF; \
   if (b < 0x80 || 0xBF < b) { \
-- 
2.43.0


From 815a1927e05e511440f9da6c71580a9cd0c450e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:40 +0000
Subject: [PATCH 02/15] fix: ByteEncoder::write decodes the bytes it is given

---
 src/lib/byteencoder.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/byteencoder.cpp b/src/lib/byteencoder.cpp
index 0b54273..4180bda 100644
--- a/src/lib/byteencoder.cpp
+++ b/src/lib/byteencoder.cpp
@@ -15,6 +15,7 @@
  *
  */
 
+#include <algorithm>
 #include <memory>
 #include <sstream>
 
@@ -40,9 +41,10 @@ uint32_t ByteEncoder::write(int32_t cp, byte buf[]) const {
   return ret;
 }
 
-uint32_t ByteEncoder::write(const byte[], int32_t& cp) const {
-  // FIXME - Joel revisit this, note that first arg is unused
-  std::unique_ptr<byte[]> tmp(new byte[maxByteLength()]);
-  byteUntransform(tmp.get(), maxByteLength());
+uint32_t ByteEncoder::write(const byte buf[], int32_t& cp) const {
+  const uint32_t len = maxByteLength();
+  std::unique_ptr<byte[]> tmp(new byte[len]);
+  std::copy(buf, buf+len, tmp.get());
+  byteUntransform(tmp.get(), len);
   return BaseEnc->write(tmp.get(), cp);
 }
-- 
2.43.0


From 5b4f96758c36d85dac0fefa3c11ddb6d8387ef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:48 +0000
Subject: [PATCH 03/15] fix: startsWith matches texts that end before the bytes
 the filter looks at

---
 src/lib/vm.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/vm.cpp b/src/lib/vm.cpp
index 7688743..847bc2e 100644
--- a/src/lib/vm.cpp
+++ b/src/lib/vm.cpp
@@ -531,10 +531,11 @@ void Vm::startsWith(const byte* const beg, const byte* const end, const uint64_t
   const Instruction* const base = &(*Prog)[0];
   uint64_t offset = startOffset;
 
-  const byte* const filterOff = beg+Prog->FilterOff;
+  const size_t filterOff = Prog->FilterOff;
 
-  if (end - beg == 1 || (filterOff < end - 1 &&
-      Prog->Filter[*(reinterpret_cast<const uint16_t*>(filterOff))]))
+  // a text which ends before the bytes checked by the filter can still match
+  if (static_cast<size_t>(end - beg) < filterOff + 2 ||
+      Prog->Filter[*(reinterpret_cast<const uint16_t*>(beg + filterOff))])
   {
     for (ThreadList::const_iterator t(First.begin()); t != First.end(); ++t) {
       Active.emplace_back(t->PC, Thread::NOLABEL, offset, Thread::NONE);
-- 
2.43.0


From ec9cc94fe528d70d7f9ae5a68044bcd06dbb8e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:30 +0000
Subject: [PATCH 04/15] fix: RangeSet from a smaller bitset keeps a run that
 reaches the bitset's end

---
 include/rangeset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rangeset.h b/include/rangeset.h
index 2fcba86..c2be735 100644
--- a/include/rangeset.h
+++ b/include/rangeset.h
@@ -76,7 +76,7 @@ public:
             break;
           }
         }
-        if (j == N) {
+        if (j == BN) {
           vec.insert(vec.end(), { i, j });
         }
 
-- 
2.43.0


From 334e0d7c9eff7d0f0d3cb794b1cb7dd17404a2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:30 +0000
Subject: [PATCH 05/15] fix: RangeSet over an empty range is the empty set

---
 include/rangeset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rangeset.h b/include/rangeset.h
index c2be735..03ae0fc 100644
--- a/include/rangeset.h
+++ b/include/rangeset.h
@@ -42,7 +42,7 @@ public:
 
   RangeSet() {}
 
-  RangeSet(T first, T last): vec{first, last} {}
+  RangeSet(T first, T last) { insert(first, last); }
 
   RangeSet(T val): vec{val, val+1} {}
 
-- 
2.43.0


From 1441d07c439494873316f8b73b37693bf0457a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:30 +0000
Subject: [PATCH 06/15] fix: RangeSet::reference::flip returns what it promises

---
 include/rangeset.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/rangeset.h b/include/rangeset.h
index 03ae0fc..539b870 100644
--- a/include/rangeset.h
+++ b/include/rangeset.h
@@ -225,6 +225,7 @@ public:
     // for b[i].flip()
     reference& flip() {
       rs.flip(pos);
+      return *this;
     }
 
   private:
-- 
2.43.0


From e92cbd5f28e72743e817fd3c3354ef2e1907baaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:45 +0000
Subject: [PATCH 07/15] fix: line context of 2^31 or more lines

find_leading_context and find_trailing_context counted lines in an int, so
asking for INT_MAX lines (-B 2147483647) looked for none and the context began
one byte inside the hit (or ended one byte short of it).
---
 src/cmd/hitwriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmd/hitwriter.cpp b/src/cmd/hitwriter.cpp
index 122056f..e51ea40 100644
--- a/src/cmd/hitwriter.cpp
+++ b/src/cmd/hitwriter.cpp
@@ -29,7 +29,7 @@ const char* find_leading_context(const char* const bbeg, const char* const hbeg,
   const auto lend = std::reverse_iterator<const char*>(bbeg);
 
   auto lnl = lbeg - 1;
-  for (int i = lines + 1; i > 0 && lnl != lend; --i) {
+  for (size_t i = 0; i <= lines && lnl != lend; ++i) {
     lnl = std::find(lnl + 1, lend, '\n');
   }
   return bbeg + (lend - lnl);
@@ -38,7 +38,7 @@ const char* find_leading_context(const char* const bbeg, const char* const hbeg,
 const char* find_trailing_context(const char* const hend, const char* const bend, size_t lines) {
   // context right of hit
   auto rnl = hend - 1;
-  for (int i = lines + 1; i > 0 && rnl != bend; --i) {
+  for (size_t i = 0; i <= lines && rnl != bend; ++i) {
     rnl = std::find(rnl + 1, bend, '\n');
   }
 
-- 
2.43.0


From 3a0a120521a0d2b7d871ffb5ceeb3439dbdd9dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:53 +0000
Subject: [PATCH 08/15] fix: hits at the end of the input keep their context

The last, empty block replaced the context buffer before the pending hits were
reported, so the text and context of a hit at the end of the input were read
from before the start of a buffer (garbage in the histogram, heap overread).
---
 src/cmd/searchcontroller.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cmd/searchcontroller.cpp b/src/cmd/searchcontroller.cpp
index 7f051df..0ea3356 100644
--- a/src/cmd/searchcontroller.cpp
+++ b/src/cmd/searchcontroller.cpp
@@ -69,8 +69,11 @@ bool SearchController::searchFile(
   }
 
   // assert: all data has been read, offset + blkSize == file size,
-  // cur is last block
-  hinfo->setBuffer(buf, blkSize, offset);
+  // cur is last block, and empty; the block before it is still valid, and is
+  // kept as the context of the hits still to be reported
+  if (!offset) {
+    hinfo->setBuffer(buf, blkSize, offset);
+  }
 
   lg_search(searcher, buf, buf + blkSize, offset, hinfo, callback);
 
-- 
2.43.0


From 22ab84604cf1d924d60a5c6e2e835ff86237be06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:48 +0000
Subject: [PATCH 09/15] fix: the context of a hit that begins before the buffer
 stays in the buffer

For a hit that began in an earlier block (or lay there altogether) the window
handed to the decoder began before the buffer, so bytes before it were read and
shown. Only the part in the buffer is decoded now; a memory-mapped file is one
block, so that nothing of it is outside the buffer.
---
 src/cmd/hitwriter.cpp | 12 +++++++++---
 src/cmd/reader.cpp    |  6 ++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/cmd/hitwriter.cpp b/src/cmd/hitwriter.cpp
index e51ea40..f7ad3c7 100644
--- a/src/cmd/hitwriter.cpp
+++ b/src/cmd/hitwriter.cpp
@@ -192,8 +192,14 @@ void HitOutputData::setBuffer(const char* buf, size_t blen, uint64_t boff) {
 }
 
 HitBuffer HitOutputData::decodeContext(const LG_SearchHit& searchHit) {
-  const char* const hbeg = CtxBuf.Buf + (searchHit.Start < CtxBuf.BufOff ? 0 : searchHit.Start - CtxBuf.BufOff);
-  const char* const hend = CtxBuf.Buf + std::min(searchHit.End - CtxBuf.BufOff, static_cast<uint64_t>(CtxBuf.BufLen));
+  // the hit may begin before the buffer, or lie before it altogether; what is
+  // not in the buffer cannot be shown
+  const uint64_t bufEnd = CtxBuf.BufOff + CtxBuf.BufLen;
+  const uint64_t hitStart = std::min(std::max(searchHit.Start, CtxBuf.BufOff), bufEnd);
+  const uint64_t hitEnd = std::min(std::max(searchHit.End, hitStart), bufEnd);
+
+  const char* const hbeg = CtxBuf.Buf + (hitStart - CtxBuf.BufOff);
+  const char* const hend = CtxBuf.Buf + (hitEnd - CtxBuf.BufOff);
 
   // beginning of context (left of hit)
   const char* const cbeg = OutInfo.BeforeContext < 0 ? hbeg : find_leading_context(CtxBuf.Buf, hbeg, OutInfo.BeforeContext);
@@ -205,7 +211,7 @@ HitBuffer HitOutputData::decodeContext(const LG_SearchHit& searchHit) {
 
   // transcode the context to UTF-8
   LG_Error* err = nullptr;
-  LG_Window inner{searchHit.Start, searchHit.End},
+  LG_Window inner{hitStart, hitEnd},
             outer,
             decodedHit;
   const char* utf8 = nullptr;
diff --git a/src/cmd/reader.cpp b/src/cmd/reader.cpp
index bc7d8b1..8c79287 100644
--- a/src/cmd/reader.cpp
+++ b/src/cmd/reader.cpp
@@ -73,8 +73,10 @@ MemoryMappedFileReader::MemoryMappedFileReader(const std::string& path):
   R.advise(bip::mapped_region::advice_sequential);
 }
 
-std::future<std::pair<const char*, size_t>> MemoryMappedFileReader::read(size_t len) {
-  len = std::min(len, static_cast<size_t>(Bend - Buf));
+std::future<std::pair<const char*, size_t>> MemoryMappedFileReader::read(size_t) {
+  // the whole file is there already; as a single block, every hit and its
+  // context lie within the block
+  const size_t len = Bend - Buf;
   std::promise<std::pair<const char*, size_t>> p;
   p.set_value(std::make_pair(Buf, len));
   Buf += len;
-- 
2.43.0


From d228c4ccd14ae8f8a3f0238dc2b3a5aa8171b7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:32 +0000
Subject: [PATCH 10/15] fix: a failing pattern without a place for its error is
 reported, not a crash

A slice is read only within its length, and allocation failures while
copying it are trapped.
---
 src/lib/lightgrep_c_api.cpp | 38 +++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index cefa0d9..3f044a4 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -51,9 +51,9 @@ namespace {
     }
   }
 
-  void setError(LG_Error** err, const std::string msg) {
+  void setError(LG_Error** err, const char* msg) {
     if (err) {
-      *err = makeError(msg.c_str());
+      *err = makeError(msg);
     }
   }
 }
@@ -92,17 +92,27 @@ int lg_parse_pattern_slice(LG_HPATTERN hPattern,
     setError(err, "LG_KeyOptions parameter was null. Please pass a valid struct.");
     return 0;
   }
-  // set up the pattern handle
-  hPattern->Pat = {
-    std::string(pattern, patLen),
-    static_cast<bool>(options->FixedString),
-    static_cast<bool>(options->CaseInsensitive),
-    static_cast<bool>(options->UnicodeMode)
-  };
-
-  int result = trapWithVals([hPattern](){ parseAndReduce(hPattern->Pat, hPattern->Tree); }, 1, 0, err);
-  if (result == 0) {
-    (*err)->Pattern = clone_c_str(pattern);
+
+  int result = trapWithVals(
+    [hPattern, pattern, patLen, options]() {
+      // set up the pattern handle
+      hPattern->Pat = {
+        std::string(pattern, patLen),
+        static_cast<bool>(options->FixedString),
+        static_cast<bool>(options->CaseInsensitive),
+        static_cast<bool>(options->UnicodeMode)
+      };
+
+      parseAndReduce(hPattern->Pat, hPattern->Tree);
+    },
+    1, 0, err
+  );
+
+  if (result == 0 && err && *err) {
+    // the slice need not be null-terminated
+    exceptionTrap([err, pattern, patLen]() {
+      (*err)->Pattern = clone_c_str(std::string(pattern, patLen).c_str());
+    });
   }
 
   return result;
@@ -186,7 +196,7 @@ int lg_add_pattern(LG_HFSM hFsm,
     err
   );
 
-  if (result == -1) {
+  if (result == -1 && err && *err) {
     (*err)->Pattern = clone_c_str(hPattern->Pat.Expression.c_str());
     (*err)->EncodingChain = clone_c_str(encoding);
   }
-- 
2.43.0


From db4d78c384b5d9f58e49cbadefc4528a29f0c19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:03 +0000
Subject: [PATCH 11/15] fix: a pattern list reports failure exactly when one of
 its patterns failed

The errors found before the one which ends the list are kept, and a
caller without a place for errors is no longer a crash.
---
 src/lib/lightgrep_c_api.cpp | 64 ++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 29 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index 3f044a4..9b743bb 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -205,8 +205,17 @@ int lg_add_pattern(LG_HFSM hFsm,
 }
 
 namespace {
+  // sets the index of the error at the end of the chain, if there is one,
+  // and moves past it
+  void finishError(LG_Error**& err, int lnum) {
+    if (err && *err) {
+      (*err)->Index = lnum;
+      err = &((*err)->Next);
+    }
+  }
+
   template <class E>
-  void addPatternHelper(LG_HFSM hFsm,
+  bool addPatternHelper(LG_HFSM hFsm,
                   LG_HPATTERN hPat,
                   const std::string& pat,
                   LG_KeyOptions* keyOpts,
@@ -214,21 +223,19 @@ namespace {
                   int lnum,
                   LG_Error**& err)
   {
-    lg_parse_pattern(hPat, pat.c_str(), keyOpts, err);
-    if (*err) {
-      (*err)->Index = lnum;
-      err = &((*err)->Next);
-      return;
+    if (!lg_parse_pattern(hPat, pat.c_str(), keyOpts, err)) {
+      finishError(err, lnum);
+      return false;
     }
 
+    bool ok = true;
     for (const std::string& enc : encodings) {
-      lg_add_pattern(hFsm, hPat, enc.c_str(), lnum, err);
-      if (*err) {
-        (*err)->Index = lnum;
-        err = &((*err)->Next);
-        continue;
+      if (lg_add_pattern(hFsm, hPat, enc.c_str(), lnum, err) < 0) {
+        finishError(err, lnum);
+        ok = false;
       }
     }
+    return ok;
   }
 
   int addPatternList(LG_HFSM hFsm,
@@ -237,8 +244,10 @@ namespace {
                      const char** defaultEncodings,
                      size_t defaultEncodingsNum,
                      const LG_KeyOptions* defaultOptions,
-                     LG_Error** err)
+                     LG_Error**& err)
   {
+    bool ok = true;
+
     std::unique_ptr<PatternHandle,void(*)(PatternHandle*)> ph(
       lg_create_pattern(),
       lg_destroy_pattern
@@ -268,8 +277,9 @@ namespace {
       if (ccur == cend) { // FIXME: is this possible?
         if (err) {
           *err = makeError("no pattern", nullptr, nullptr, source, lnum);
-          err = &((*err)->Next);
+          finishError(err, lnum);
         }
+        ok = false;
         continue;
       }
 
@@ -289,8 +299,9 @@ namespace {
               "no encoding list",
               pat.c_str(), nullptr, source, lnum
             );
-            err = &((*err)->Next);
+            finishError(err, lnum);
           }
+          ok = false;
           continue;
         }
 
@@ -305,15 +316,15 @@ namespace {
           }
         }
 
-        addPatternHelper(hFsm, ph.get(), pat, &opts, etok, lnum, err);
+        ok &= addPatternHelper(hFsm, ph.get(), pat, &opts, etok, lnum, err);
       }
       else {
         // use default encodings and options
-        addPatternHelper(hFsm, ph.get(), pat, &opts, defEncs, lnum, err);
+        ok &= addPatternHelper(hFsm, ph.get(), pat, &opts, defEncs, lnum, err);
       }
     }
 
-    return err ? -1 : 0;
+    return ok ? 0 : -1;
   }
 }
 
@@ -325,25 +336,20 @@ int lg_add_pattern_list(LG_HFSM hFsm,
                         const LG_KeyOptions* defaultOptions,
                         LG_Error** err)
 {
-  // LG_Error* in_err = nullptr;
+  LG_Error* last = nullptr;
 
   const int ret = trapWithRetval(
-    [hFsm, patterns, source, defaultEncodings, defaultEncodingsNum, defaultOptions, err]() {
+    [&]() {
       return addPatternList(hFsm, patterns, source, defaultEncodings, defaultEncodingsNum, defaultOptions, err);
     },
     -1,
-    err
+    err ? &last : nullptr
   );
 
-  // if (err) {
-  //   if (in_err) {
-  //     if (*err) {
-  //       // append the error from addPatternList to the chain
-  //       in_err->Next = *err;
-  //     }
-  //     *err = in_err;
-  //   }
-  // }
+  if (last) {
+    // append the error which ended addPatternList to the chain of the others
+    *err = last;
+  }
 
   return ret;
 }
-- 
2.43.0


From 5bdf0f1775290c546be4b9f79afede9991605da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:45 +0000
Subject: [PATCH 12/15] fix: hit context counts the bad values of its window,
 for any context size

With no room before the hit the count started at UINT_MAX; values trimmed
off the window were counted; huge context sizes overflowed; and a value
reaching past the end of the hit cut the trailing context short.
---
 src/lib/lightgrep_c_util.cpp | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/lib/lightgrep_c_util.cpp b/src/lib/lightgrep_c_util.cpp
index 8282f2b..a664312 100644
--- a/src/lib/lightgrep_c_util.cpp
+++ b/src/lib/lightgrep_c_util.cpp
@@ -115,7 +115,6 @@ namespace {
     // precondition:
     //    bbeg <= hbeg <= hend <= bend
 
-    unsigned int bad = 0;
     std::pair<int32_t,const byte*> cp;
 
     //
@@ -127,10 +126,14 @@ namespace {
     // Decode leading sequences of increasing length until we hit the
     // beginning of the buffer or decode more values than we need for
     // leading context.
-    for (const byte* l = hbeg-1; l >= bbeg && hbeg - l <= ssize_t(leading * dec.maxByteLength()); --l) {
+    const size_t maxlen = dec.maxByteLength();
+    const byte* const lbeg = leading <= size_t(hbeg - bbeg) / maxlen ?
+                             hbeg - leading * maxlen : bbeg;
+
+    for (const byte* l = hbeg-1; l >= lbeg; --l) {
       dec.reset(l, hbeg);
       lctx.clear();
-      bad = 0;
+      unsigned int bad = 0;
 
       // read the leading context
       while ((cp = dec.next()).first != LG_WINDOW_END) {
@@ -168,20 +171,15 @@ namespace {
       }
     }
 
-    bad = std::numeric_limits<unsigned int>::max() - max_inv_bad;
-
     //
     // hit
     //
     dh.begin = cps.size();
 
-    dec.reset(hbeg, std::min(hend + trailing*dec.maxByteLength(), bend));
+    dec.reset(hbeg, bend);
 
     while ((cp = dec.next()).second < hend) {
       cps.push_back(cp);
-      if (cp.first < 0) {
-        ++bad;
-      }
     }
 
     dh.end = cps.size();
@@ -189,19 +187,16 @@ namespace {
     //
     // trailing context
     //
-    do {
-      if (cp.first == LG_WINDOW_END) {
-        break;
-      }
-
+    for ( ; trailing > 0 && cp.first != LG_WINDOW_END; --trailing) {
       cps.push_back(cp);
-
-      if (cp.first < 0) {
-        ++bad;
-      }
-
       cp = dec.next();
-    } while (--trailing > 0);
+    }
+
+    // count the bad values which made it into the window
+    const unsigned int bad = std::count_if(
+      cps.begin(), cps.end(),
+      [](const std::pair<int32_t,const byte*>& p) { return p.first < 0; }
+    );
 
     //
     // termination
-- 
2.43.0


From ad223cc4e2b765c6a8d5e3d435cc0964ca45e07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:52 +0000
Subject: [PATCH 13/15] fix: the size of a pattern table is not computed in int

---
 src/lib/pattern_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pattern_map.cpp b/src/lib/pattern_map.cpp
index 539a787..a29e82a 100644
--- a/src/lib/pattern_map.cpp
+++ b/src/lib/pattern_map.cpp
@@ -104,7 +104,7 @@ size_t PatternMap::bufSize() const {
   return std::accumulate(
     Patterns.begin(),
     Patterns.end(),
-    0,
+    size_t(0),
     [](size_t s, const LG_PatternInfo& pi) {
       return s + std::strlen(pi.Pattern) + 1
                + std::strlen(pi.EncodingChain) + 1
-- 
2.43.0


From 599350cc14f6b1d0e60f3609ebe8cfcc406a90bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:41 +0000
Subject: [PATCH 14/15] fix: the sizes in a saved program are compared without
 overflow

---
 src/lib/lightgrep_c_api.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/lightgrep_c_api.cpp b/src/lib/lightgrep_c_api.cpp
index 9b743bb..e9bef32 100644
--- a/src/lib/lightgrep_c_api.cpp
+++ b/src/lib/lightgrep_c_api.cpp
@@ -436,7 +436,7 @@ namespace {
     const uint64_t pmap_size = *reinterpret_cast<const uint64_t*>(src);
     src += sizeof(pmap_size);
 
-    if (src + pmap_size > end) {
+    if (pmap_size > static_cast<size_t>(end - src)) {
       return nullptr;
     }
     hProg->PMap = PatternMap::unmarshall(src, pmap_size);
@@ -448,7 +448,7 @@ namespace {
     const uint64_t prog_size = *reinterpret_cast<const uint64_t*>(src);
     src += sizeof(prog_size);
 
-    if (src + prog_size > end) {
+    if (prog_size > static_cast<size_t>(end - src)) {
       return nullptr;
     }
     hProg->Prog = Program::unmarshall(src, prog_size);
-- 
2.43.0


From 4c253547508a431f57fe41b0644ab451d2bffd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:13 +0000
Subject: [PATCH 15/15] fix: an empty pattern is a parse error, not a crash

---
 src/lib/re_grammar.ypp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/re_grammar.ypp b/src/lib/re_grammar.ypp
index a1365c0..ae81d4a 100644
--- a/src/lib/re_grammar.ypp
+++ b/src/lib/re_grammar.ypp
@@ -1296,7 +1296,7 @@ namespace {
   }
 
   int yylex(YYSTYPE* yylval, YYLTYPE* yylloc, Context* ctx) {
-    yylloc->first_column = ctx->Text - ctx->TextBegin;
+    yylloc->first_column = yylloc->last_column = ctx->Text - ctx->TextBegin;
 
     ctx->TokenType = -1;  // EOF
 
-- 
2.43.0

