From d9e912dae9ac9a2dcf41cb8267fb3abf5f473362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:56 +0000
Subject: [PATCH 01/11] fix: Merge::uat_ returned the longer of two intervals
 with the same start

When both operands' answers start at the same address the shorter one is
nested in the longer, so the minimal-interval result is the shorter; uat_
(and ohr_, which uses it) picked the longer one.
---
 gcl/gcl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcl/gcl.cc b/gcl/gcl.cc
index 2223462..e09ddac 100644
--- a/gcl/gcl.cc
+++ b/gcl/gcl.cc
@@ -322,7 +322,7 @@ void Merge::uat_(addr k, addr *p, addr *q, fval *v) {
     *p = pr;
     *q = qr;
     *v = vr;
-  } else if (ql < qr) {
+  } else if (qr < ql) {
     *p = pr;
     *q = qr;
     *v = vr;
-- 
2.43.0


From bfdba8b6f1138f14a6960b8621b6395d93eb9d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:42 +0000
Subject: [PATCH 02/11] fix: SimpleAnnotator lost the innermost of nested
 annotations

Annotations were sorted by start only, so a nested annotation added after
its container was dropped when postings were built. Sort as Fiver does.
---
 src/simple_annotator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simple_annotator.cc b/src/simple_annotator.cc
index 95b4cdb..83b35f5 100644
--- a/src/simple_annotator.cc
+++ b/src/simple_annotator.cc
@@ -202,7 +202,8 @@ bool merge_updates(const std::vector<std::string> &posting_filenames,
 }
 
 bool annotation_cmp(const Annotation &a, const Annotation &b) {
-  return a.feature < b.feature || (a.feature == b.feature && a.p < b.p);
+  return a.feature < b.feature ||
+         (a.feature == b.feature && (a.q < b.q || (a.q == b.q && a.p > b.p)));
 }
 } // namespace
 
-- 
2.43.0


From 61656a8c3b9fca13139efcfa0b721ec78586dd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:42 +0000
Subject: [PATCH 03/11] fix: posting_from_annotations kept repeated and nested
 intervals

An interval with the start or the end of the one before it contains or
repeats it, so the list was not a list of minimal intervals.
---
 src/simple_posting.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index f3e21c8..b233f2f 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -56,8 +56,8 @@ std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_annotations(
       if (stop->v != 0.0)
         clear_fostings = false;
       if (posting->postings_.size() == 0 ||
-          (stop->p >= posting->postings_.back() &&
-           stop->q >= posting->qostings_.back())) {
+          (stop->p > posting->postings_.back() &&
+           stop->q > posting->qostings_.back())) {
         posting->postings_.push_back(stop->p);
         posting->qostings_.push_back(stop->q);
         posting->fostings_.push_back(stop->v);
-- 
2.43.0


From e92ce100e5d6075c8fbf8e2b67e15fc5d3b53507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:42 +0000
Subject: [PATCH 04/11] fix: posting_from_merge compared only neighbouring
 postings before concatenating

With an empty posting between them, two postings out of order were
concatenated instead of merged.
---
 src/simple_posting.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index b233f2f..d04ee74 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -400,17 +400,20 @@ std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_merge(
     return postings[0];
   addr feature = postings[0]->feature();
   bool can_append = true;
+  size_t last = 0;
   for (size_t i = 1; can_append && i < postings.size(); i++) {
     assert(postings[i]->feature() == feature);
-    size_t size0 = postings[i - 1]->size();
+    size_t size0 = postings[last]->size();
     size_t size1 = postings[i]->size();
     if (size0 > 0 && size1 > 0) {
       addr p0, p1, q0, q1;
       fval v0, v1;
-      postings[i - 1]->get(size0 - 1, &p0, &q0, &v0);
+      postings[last]->get(size0 - 1, &p0, &q0, &v0);
       postings[i]->get(0, &p1, &q1, &v1);
       can_append = (p0 < p1 && q0 < q1);
     }
+    if (size1 > 0)
+      last = i;
   }
   std::shared_ptr<SimplePosting> merged_posting = posting_from_feature(feature);
   if (can_append) {
-- 
2.43.0


From 8f09ac763c743e967d516f3fc88d3b23fe33c224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:54 +0000
Subject: [PATCH 05/11] fix: FiverTxt::translate returned the text after a gap
 in the address space

When the requested interval ended in a gap (left by an aborted transaction
in a merged shard), everything up to the end of the shard was returned.
---
 src/fiver.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 15f1b06..9acf64e 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -297,10 +297,10 @@ private:
       s = tokenizer_->skip(s, n - i, p - p0);
     else
       p = p0;
-    const char *e;
     if (q > q1)
-      e = t + n;
-    else if (q0 == q1)
+      q = q1; // nothing is stored between this chunk and the next
+    const char *e;
+    if (q0 == q1)
       e = tokenizer_->skip(s, n - (s - t), q - p + 1);
     else
       e = tokenizer_->skip(t + j, n - j, q - p1 + 1);
-- 
2.43.0


From a9156492c79bca68ed7022e73aebd0b35dde52d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:28 +0000
Subject: [PATCH 06/11] fix: an empty transaction on disk ended the process at
 commit

Fiver::ready_ skipped writing the shard when nothing had been annotated, and
commit_ then failed to link the shard it expects to find.
---
 src/fiver.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 9acf64e..e0f2198 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -671,8 +671,6 @@ bool Fiver::ready_(std::string *error) {
   }
   if (!appender_->ready(error) || !annotator_->ready(error))
     return false;
-  if (annotations_->size() == 0)
-    return true;
   index_->clear();
   addr relocate = staging - where_;
   for (auto &annotation : (*annotations_))
-- 
2.43.0


From fc1797d89536bd790819bf9494ce29c366831c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:25 +0000
Subject: [PATCH 07/11] fix: FiverTxt::translate lost the text when asked up to
 the end of the address space

---
 src/fiver.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fiver.cc b/src/fiver.cc
index e0f2198..b8047d4 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -281,6 +281,8 @@ private:
       p = 0;
     if (p == maxfinity || q < p)
       return "";
+    if (q == maxfinity)
+      --q;
     addr p0, q0, i;
     addr p1, q1, j;
     {
-- 
2.43.0


From eb13a3d5add28e776d5f446b8b9dc0fec5a52081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:25 +0000
Subject: [PATCH 08/11] fix: HazelTxt ran to the end of the text in an address
 gap and counted gaps as tokens

---
 src/hazel.cc | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/hazel.cc b/src/hazel.cc
index a0283b6..58741cf 100644
--- a/src/hazel.cc
+++ b/src/hazel.cc
@@ -996,21 +996,19 @@ private:
     }
     if (p1 == minfinity || p1 == maxfinity)
       return "";
+    if (q > q1)
+      q = q1; // nothing is stored between this chunk and the next
     if (left_anchor_byte < 0 || left_anchor_byte > raw_text_length_ ||
         right_anchor_byte < 0 || right_anchor_byte > raw_text_length_)
       return "";
 
     addr cover_byte_start = left_anchor_byte;
-    addr cover_byte_end = q > q1 ? raw_text_length_ : right_anchor_byte;
+    addr cover_byte_end = right_anchor_byte;
     if (cover_byte_start > cover_byte_end || map_.empty())
       return "";
 
     size_t first_chunk = chunk_containing(left_anchor_byte);
-    size_t last_chunk;
-    if (q > q1)
-      last_chunk = map_.size() - 1;
-    else
-      last_chunk = chunk_containing(right_anchor_byte);
+    size_t last_chunk = chunk_containing(right_anchor_byte);
     if (first_chunk >= map_.size() || last_chunk >= map_.size() ||
         first_chunk > last_chunk)
       return "";
@@ -1033,9 +1031,7 @@ private:
       p = p0;
 
     const char *end;
-    if (q > q1) {
-      end = limit;
-    } else if (q0 == q1) {
+    if (q0 == q1) {
       end = tokenizer_->skip(start, limit - start, q - p + 1);
     } else {
       addr offset = right_anchor_byte - window_byte_start;
@@ -1052,7 +1048,7 @@ private:
   addr tokens_() final {
     if (token_start_ == maxfinity)
       return 0;
-    return token_end_ - token_start_ + 1;
+    return token_count_;
   };
   bool range_(addr *p, addr *q) final {
     if (token_start_ == maxfinity) {
@@ -1147,6 +1143,7 @@ private:
   void load_token_range() {
     token_start_ = maxfinity;
     token_end_ = maxfinity;
+    token_count_ = 0;
     addr p, q, value;
     {
       std::lock_guard<std::mutex> lock(hopper_lock_);
@@ -1154,8 +1151,11 @@ private:
       if (p == maxfinity)
         return;
       token_start_ = p;
-      hopper_->uat(maxfinity - 1, &p, &q, &value);
-      token_end_ = q;
+      // the address space may have gaps, so the tokens are counted chunk by chunk
+      for (; p < maxfinity; hopper_->tau(p + 1, &p, &q, &value)) {
+        token_count_ += q - p + 1;
+        token_end_ = q;
+      }
     }
     if (token_end_ < token_start_) {
       token_start_ = maxfinity;
@@ -1249,6 +1249,7 @@ private:
   std::mutex cache_write_lock_;
   addr token_start_ = maxfinity;
   addr token_end_ = maxfinity;
+  addr token_count_ = 0;
 };
 
 bool HazelTxt::merge(const std::vector<std::shared_ptr<HazelTxt>> &txts,
-- 
2.43.0


From f2c1e0e8cf8a4eeea3717da6ff2de98a4c8898c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:25 +0000
Subject: [PATCH 09/11] fix: Hazel conversion lost the text of shards that
 start with separators only

---
 src/fiver.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index b8047d4..5c5c6a8 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -1117,8 +1117,7 @@ bool hazel_write_txt_blob(std::fstream *out, std::shared_ptr<Idx> idx,
       return false;
     }
     if (!have_chunk) {
-      group_start = raw_start;
-      have_chunk = true;
+      have_chunk = true; // the first group also holds any text before this chunk
     } else if (raw_start - group_start >= target_chunk_size) {
       if (!hazel_write_text_chunk(out, chunk_space_start, text, group_start,
                                   raw_start - group_start, text_compressor,
-- 
2.43.0


From 1a58ef3985117eec805e1089df2e074b0a3e0cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:25 +0000
Subject: [PATCH 10/11] fix: aborting a transaction that was never ready could
 delete another's file

---
 src/fiver.cc | 4 +++-
 src/fiver.h  | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 5c5c6a8..fbfa457 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -733,7 +733,8 @@ void Fiver::abort_() {
     index_->clear();
     where_ = 0;
     built_ = true;
-    discard();
+    if (jarred_)
+      discard();
     name_ = "remove";
   }
 };
@@ -756,6 +757,7 @@ bool Fiver::pickle(std::string *error) {
       safe_error(error) = "Fiver can't link pickle jar";
       return false;
     }
+    jarred_ = true;
     std::remove(tempname.c_str());
   }
   return true;
diff --git a/src/fiver.h b/src/fiver.h
index 0c099dc..2a6ce8c 100644
--- a/src/fiver.h
+++ b/src/fiver.h
@@ -98,7 +98,8 @@ private:
   bool built_;
   addr where_;
   addr storage_estimate_;
-  addr sequence_start_, sequence_end_;
+  addr sequence_start_ = 0, sequence_end_ = 0;
+  bool jarred_ = false; // our kitten file exists
   std::shared_ptr<Compressor> posting_compressor_;
   std::shared_ptr<Compressor> fvalue_compressor_;
   std::shared_ptr<Compressor> text_compressor_;
-- 
2.43.0


From 6501bac3d6679496238a2030d89f378cdeac2083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:00 +0000
Subject: [PATCH 11/11] fix: splitting UTF-8 text stopped at a NUL, unlike
 tokenizing and skipping

---
 src/utf8_tokenizer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utf8_tokenizer.cc b/src/utf8_tokenizer.cc
index 59ba36f..a6592d0 100644
--- a/src/utf8_tokenizer.cc
+++ b/src/utf8_tokenizer.cc
@@ -577,7 +577,7 @@ std::vector<std::string> Utf8Tokenizer::split_(const std::string &text) {
   const uint8_t *s = (const uint8_t *)text.c_str();
   const uint8_t *e = s + text.length();
   std::string token;
-  while (*s) {
+  while (s < e) {
     uint32_t codepoint;
     const uint8_t *t = unicode(s, e, &codepoint);
     uint8_t *action = actions_[codepoint];
-- 
2.43.0

