From 69658efb2dfe2da058eb76aeeeb4b0c4b5aade9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 01/18] hook: route dropout draws through the simulator under
 TOKENIZERS_SIM

---
 src/model.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/model.cpp b/src/model.cpp
index 9d5850c..340ceda 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -19,6 +19,11 @@
 #include "tokenizers/common.h"
 #include "tokenizers/utils.h"
 
+#ifdef TOKENIZERS_SIM
+// Simulation hook: the simulator sees, and may replace, every dropout draw.
+float tokenizers_sim_draw(float drawn);
+#endif
+
 MODEL get_model(std::string type) {
   static const std::unordered_map<std::string, MODEL> types = {
       {"BPE", BPE_MODEL},
@@ -238,10 +243,17 @@ void Word::merge_all(
   }
   std::default_random_engine rng;
   std::uniform_real_distribution<float> dist(0.0, 1.0);
+  auto draw = [&]() {
+#ifdef TOKENIZERS_SIM
+    return tokenizers_sim_draw(dist(rng));
+#else
+    return dist(rng);
+#endif
+  };
   while (!queue.empty()) {
     Merge top = queue.top();
     queue.pop();
-    if (dropout != 0.0f && dist(rng) < dropout) {
+    if (dropout != 0.0f && draw() < dropout) {
       skip.push_back(top);
       continue;
     }
-- 
2.43.0


From e2780f16fd3a39c3dfafdc548df91ed1c4a5e858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 02/18] fix: guard the BPE cache so that one tokenizer can be
 shared by threads

---
 include/tokenizers/model.h |  2 ++
 src/model.cpp              | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/tokenizers/model.h b/include/tokenizers/model.h
index 1690ece..f15d2ca 100644
--- a/include/tokenizers/model.h
+++ b/include/tokenizers/model.h
@@ -3,6 +3,7 @@
 
 #include <iostream>
 #include <memory>
+#include <mutex>
 #include <optional>
 #include <sstream>
 #include <string>
@@ -111,6 +112,7 @@ class BPE : public Model {
 
  private:
   mutable std::unordered_map<std::string, Word> cache;
+  mutable std::mutex cache_mutex;
   Word merge_word(std::string sequence) const;
   std::vector<Token> word_to_tokens(const Word &word) const;
   std::vector<Token> tokenize_with_cache(const std::string &sequence) const;
diff --git a/src/model.cpp b/src/model.cpp
index 340ceda..763178e 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -6,6 +6,7 @@
 
 #include <iostream>
 #include <memory>
+#include <mutex>
 #include <optional>
 #include <queue>
 #include <random>
@@ -107,8 +108,8 @@ std::unique_ptr<Model> with_model(simdjson::ondemand::object model_params) {
                              ? false
                              : static_cast<bool>(val.get_bool());
     return std::make_unique<BPE>(
-        BPE(vocab, merges, dropout, unk_token, continuing_subword_prefix,
-            end_of_word_suffix, fuse_unk, byte_fallback, ignore_merges));
+        vocab, merges, dropout, unk_token, continuing_subword_prefix,
+        end_of_word_suffix, fuse_unk, byte_fallback, ignore_merges);
   }
   return nullptr;
 }
@@ -437,12 +438,16 @@ std::vector<Token> BPE::tokenize_with_cache(const std::string& sequence) const {
       return {Token(it->second, sequence, {0, 0})};
     }
   }
-  auto it = cache.find(sequence);
-  if (it != cache.end()) {
-    return word_to_tokens(it->second);
+  {
+    std::lock_guard<std::mutex> lock(cache_mutex);
+    auto it = cache.find(sequence);
+    if (it != cache.end()) {
+      return word_to_tokens(it->second);
+    }
   }
   auto word = merge_word(sequence);
   auto result = word_to_tokens(word);
+  std::lock_guard<std::mutex> lock(cache_mutex);
   cache.insert({sequence, word});
   return result;
 }
-- 
2.43.0


From 5b908361d4f7c7907b685e02d0857b06f9fd2176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 03/18] fix: bound the BPE cache

---
 include/tokenizers/model.h | 3 +++
 src/model.cpp              | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/tokenizers/model.h b/include/tokenizers/model.h
index f15d2ca..c0577fb 100644
--- a/include/tokenizers/model.h
+++ b/include/tokenizers/model.h
@@ -92,6 +92,9 @@ class Word {
       float dropout);
 };
 
+// Most words whose merges a BPE model remembers.
+constexpr std::size_t BPE_CACHE_CAPACITY = 10000;
+
 class BPE : public Model {
  public:
   std::unordered_map<std::pair<int, int>, std::pair<int, int>, PairHash> merges;
diff --git a/src/model.cpp b/src/model.cpp
index 763178e..16edf07 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -448,7 +448,9 @@ std::vector<Token> BPE::tokenize_with_cache(const std::string& sequence) const {
   auto word = merge_word(sequence);
   auto result = word_to_tokens(word);
   std::lock_guard<std::mutex> lock(cache_mutex);
-  cache.insert({sequence, word});
+  if (cache.size() < BPE_CACHE_CAPACITY) {
+    cache.insert({sequence, word});
+  }
   return result;
 }
 
-- 
2.43.0


From 3bdffc00a93d70f097abc70cd0cf4da5e688ab16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 04/18] fix: do not pass the added vocabulary's own list to
 add_tokens, which grows it

---
 src/tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index e5ffd6d..ddbeaae 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -85,7 +85,7 @@ Tokenizer::Tokenizer(const std::string& path, const std::string& config) {
   }
 
   if (added_vocabulary != nullptr) {
-    add_tokens(added_vocabulary->added_tokens);
+    add_tokens(std::vector<AddedToken>(added_vocabulary->added_tokens));
   }
 }
 
-- 
2.43.0


From b21c21045df4cb0c8c9626e95bd1da35a57bd965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:31 +0000
Subject: [PATCH 05/18] fix: report regex failures of the pre-tokenizers
 instead of dereferencing null

---
 src/pre_tokenizer.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 01e7054..83f2627 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -8,9 +8,11 @@
 #include <functional>
 #include <iostream>
 #include <memory>
+#include <new>
 #include <numeric>
 #include <optional>
 #include <regex>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -104,14 +106,23 @@ std::vector<std::pair<std::pair<int, int>, bool>> find_matches(
     std::string regex, icu::UnicodeString input) {
   std::vector<std::pair<int, int>> matches;
   UErrorCode status = U_ZERO_ERROR;
-  icu::RegexPattern* unicode_pattern = icu::RegexPattern::compile(
-      icu::UnicodeString::fromUTF8(regex), 0, status);
-  icu::RegexMatcher* matcher = unicode_pattern->matcher(input, status);
-  while (matcher->find(status)) {
+  std::unique_ptr<icu::RegexPattern> unicode_pattern(
+      icu::RegexPattern::compile(icu::UnicodeString::fromUTF8(regex), 0,
+                                 status));
+  std::unique_ptr<icu::RegexMatcher> matcher;
+  if (U_SUCCESS(status)) {
+    matcher.reset(unicode_pattern->matcher(input, status));
+  }
+  while (U_SUCCESS(status) && matcher->find(status)) {
     matches.push_back({matcher->start(status), matcher->end(status)});
   }
-  delete matcher;
-  delete unicode_pattern;
+  if (status == U_MEMORY_ALLOCATION_ERROR) {
+    throw std::bad_alloc();
+  }
+  if (U_FAILURE(status)) {
+    throw std::runtime_error("ICU regex failed with error code: " +
+                             std::to_string(status));
+  }
 
   std::vector<std::pair<std::pair<int, int>, bool>> result;
   int cur = 0;
-- 
2.43.0


From 31666f2be1bd81a95f25e8b620db227a2e68c558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 06/18] fix: turn ICU conversions that ran out of memory into
 exceptions

---
 include/tokenizers/common.h | 10 ++++++++++
 src/added_vocabulary.cpp    | 10 +++++-----
 src/common.cpp              | 38 +++++++++++++++++++++++++++++++++++++
 src/decoder.cpp             |  2 +-
 src/model.cpp               |  6 ++----
 src/normalizer.cpp          | 24 +++++++++--------------
 src/post_processor.cpp      |  2 +-
 src/pre_tokenizer.cpp       | 12 +++++-------
 8 files changed, 71 insertions(+), 33 deletions(-)

diff --git a/include/tokenizers/common.h b/include/tokenizers/common.h
index 8d9b135..4d80be5 100644
--- a/include/tokenizers/common.h
+++ b/include/tokenizers/common.h
@@ -1,6 +1,8 @@
 // Copyright 2024 Omkar Prabhu
 #pragma once
 
+#include <unicode/unistr.h>
+
 #include <codecvt>
 #include <cstdint>
 #include <optional>
@@ -55,4 +57,12 @@ std::string convert_to_string(std::wstring sequence);
 
 std::wstring convert_from_string(std::string sequence);
 
+// Conversions to and from ICU strings that throw when memory runs out, where
+// ICU itself would give a bogus or an empty string.
+icu::UnicodeString unicode_from_utf8(const std::string &sequence);
+
+icu::UnicodeString unicode_from_utf32(const std::wstring &sequence);
+
+std::string unicode_to_utf8(const icu::UnicodeString &sequence);
+
 std::unordered_map<uint16_t, std::string> bytes_char();
diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index d7f86b5..1cb7e13 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -180,11 +180,11 @@ AddedVocabulary::find_matches(
   for (int i = 0; i < split_re.first.size(); ++i) {
     word_ids[split_re.first[i]] = split_re.second[i];
   }
-  icu::UnicodeString unicode_sentence = icu::UnicodeString::fromUTF8(sentence);
+  icu::UnicodeString unicode_sentence = unicode_from_utf8(sentence);
   int i = 0, cur = 0;
   while (i < unicode_sentence.length()) {
-    std::string sub_sentence;
-    unicode_sentence.tempSubString(cur, i - cur).toUTF8String(sub_sentence);
+    std::string sub_sentence =
+        unicode_to_utf8(unicode_sentence.tempSubString(cur, i - cur));
     if (word_ids.count(sub_sentence) > 0) {
       matches.push_back({cur, i, word_ids[sub_sentence]});
       cur = i;
@@ -195,8 +195,8 @@ AddedVocabulary::find_matches(
     i++;
   }
   if (i != cur) {
-    std::string sub_sentence;
-    unicode_sentence.tempSubString(cur, i - cur).toUTF8String(sub_sentence);
+    std::string sub_sentence =
+        unicode_to_utf8(unicode_sentence.tempSubString(cur, i - cur));
     if (word_ids.count(sub_sentence) > 0) {
       matches.push_back({cur, i, word_ids[sub_sentence]});
     }
diff --git a/src/common.cpp b/src/common.cpp
index d98c463..5cd303d 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -3,9 +3,11 @@
 
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
+#include <unicode/ustring.h>
 
 #include <algorithm>
 #include <cstdint>
+#include <new>
 #include <optional>
 #include <string>
 #include <unordered_map>
@@ -66,6 +68,42 @@ std::wstring convert_from_string(std::string sequence) {
   return converter.from_bytes(sequence);
 }
 
+icu::UnicodeString unicode_from_utf8(const std::string& sequence) {
+  icu::UnicodeString result = icu::UnicodeString::fromUTF8(sequence);
+  if (result.isBogus()) {
+    throw std::bad_alloc();
+  }
+  return result;
+}
+
+icu::UnicodeString unicode_from_utf32(const std::wstring& sequence) {
+  // not fromUTF32(), which retries forever when memory has run out
+  icu::UnicodeString result;
+  const int32_t capacity = static_cast<int32_t>(sequence.length()) * 2;
+  char16_t* buffer = result.getBuffer(capacity);
+  if (buffer == nullptr) {
+    throw std::bad_alloc();
+  }
+  UErrorCode status = U_ZERO_ERROR;
+  int32_t length = 0;
+  u_strFromUTF32WithSub(buffer, capacity, &length,
+                        reinterpret_cast<const UChar32*>(sequence.c_str()),
+                        static_cast<int32_t>(sequence.length()), 0xFFFD,
+                        nullptr, &status);
+  result.releaseBuffer(length);
+  return result;
+}
+
+std::string unicode_to_utf8(const icu::UnicodeString& sequence) {
+  std::string result(static_cast<size_t>(sequence.length()) * 3, '\0');
+  UErrorCode status = U_ZERO_ERROR;
+  int32_t length = 0;
+  u_strToUTF8WithSub(&result[0], result.length(), &length, sequence.getBuffer(),
+                     sequence.length(), 0xFFFD, nullptr, &status);
+  result.resize(length);
+  return result;
+}
+
 std::unordered_map<uint16_t, std::string> bytes_char() {
   std::unordered_map<uint16_t, std::string> result;
   std::vector<uint16_t> bs;
diff --git a/src/decoder.cpp b/src/decoder.cpp
index 65b6665..7e2d8e1 100644
--- a/src/decoder.cpp
+++ b/src/decoder.cpp
@@ -202,7 +202,7 @@ std::vector<std::string> ByteLevelDecoder::decode_chain(
     std::vector<std::string> tokens) const {
   std::string result;
   for (const auto& token : tokens) {
-    icu::UnicodeString unicode_token = icu::UnicodeString::fromUTF8(token);
+    icu::UnicodeString unicode_token = unicode_from_utf8(token);
     for (int i = 0; i < unicode_token.length(); i++) {
       auto ch = unicode_token.char32At(i);
       auto it = CHAR_BYTES.find(std::string(1, ch));
diff --git a/src/model.cpp b/src/model.cpp
index 16edf07..072c443 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -148,8 +148,7 @@ WordPiece::WordPiece(const std::unordered_map<std::string, int>& vocab,
 
 PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
   for (auto& split : pre_tokenized.splits) {
-    icu::UnicodeString unicode_sequence =
-        icu::UnicodeString::fromUTF8(split.normalized);
+    icu::UnicodeString unicode_sequence = unicode_from_utf8(split.normalized);
     int char_len = unicode_sequence.length();
     if (char_len > max_input_chars_per_word) {
       auto it = vocab.find(unk_token);
@@ -167,10 +166,9 @@ PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
       int end = unicode_sequence.length();
       std::optional<Token> cur_sequence_token = std::nullopt;
       while (start < end) {
-        std::string sub_sequence;
         icu::UnicodeString unicode_sub_sequence =
             unicode_sequence.tempSubString(start, end - start);
-        unicode_sub_sequence.toUTF8String(sub_sequence);
+        std::string sub_sequence = unicode_to_utf8(unicode_sub_sequence);
         if (start > 0) {
           sub_sequence = continuing_subword_prefix + sub_sequence;
         }
diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 0e7f22a..b905031 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -44,9 +44,7 @@ NORMALIZER get_normalizer(std::string type) {
 
 NormalizedString::NormalizedString(std::wstring normalized)
     : normalized(normalized) {
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.c_str()),
-      normalized.length());
+  icu::UnicodeString unicode_normalized = unicode_from_utf32(normalized);
   int idx = 0;
   for (int i = 0; i < unicode_normalized.length(); i++) {
     icu::UnicodeString unicode_normalized_str;
@@ -253,9 +251,8 @@ NFC::NFC() {}
 
 NormalizedString NFC::normalize(NormalizedString normalized) const {
   UErrorCode status = U_ZERO_ERROR;
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.normalized.c_str()),
-      normalized.normalized.length());
+  icu::UnicodeString unicode_normalized =
+      unicode_from_utf32(normalized.normalized);
   icu::Normalizer::normalize(unicode_normalized, UNORM_NFC, 0,
                              unicode_normalized, status);
   if (U_FAILURE(status)) {
@@ -291,9 +288,8 @@ NFD::NFD() {}
 
 NormalizedString NFD::normalize(NormalizedString normalized) const {
   UErrorCode status = U_ZERO_ERROR;
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.normalized.c_str()),
-      normalized.normalized.length());
+  icu::UnicodeString unicode_normalized =
+      unicode_from_utf32(normalized.normalized);
   icu::Normalizer::normalize(unicode_normalized, UNORM_NFD, 0,
                              unicode_normalized, status);
   if (U_FAILURE(status)) {
@@ -329,9 +325,8 @@ NFKC::NFKC() {}
 
 NormalizedString NFKC::normalize(NormalizedString normalized) const {
   UErrorCode status = U_ZERO_ERROR;
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.normalized.c_str()),
-      normalized.normalized.length());
+  icu::UnicodeString unicode_normalized =
+      unicode_from_utf32(normalized.normalized);
   icu::Normalizer::normalize(unicode_normalized, UNORM_NFKC, 0,
                              unicode_normalized, status);
   if (U_FAILURE(status)) {
@@ -367,9 +362,8 @@ NFKD::NFKD() {}
 
 NormalizedString NFKD::normalize(NormalizedString normalized) const {
   UErrorCode status = U_ZERO_ERROR;
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.normalized.c_str()),
-      normalized.normalized.length());
+  icu::UnicodeString unicode_normalized =
+      unicode_from_utf32(normalized.normalized);
   icu::Normalizer::normalize(unicode_normalized, UNORM_NFKD, 0,
                              unicode_normalized, status);
   if (U_FAILURE(status)) {
diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index 135c730..91c4754 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -212,7 +212,7 @@ Encoding ByteLevelProcessing::process_offsets(const Encoding& encoding,
     std::string token = encoding.tokens[i];
     std::pair<int, int> offsets = encoding.offsets[i];
     int leading_spaces = 0, trailing_spaces = 0;
-    icu::UnicodeString unicode_token = icu::UnicodeString::fromUTF8(token);
+    icu::UnicodeString unicode_token = unicode_from_utf8(token);
     for (int j = 0; j < unicode_token.length(); j++) {
       std::string token_char;
       unicode_token.tempSubString(j, 1).toUTF8String(token_char);
diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 83f2627..822b8c3 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -107,8 +107,7 @@ std::vector<std::pair<std::pair<int, int>, bool>> find_matches(
   std::vector<std::pair<int, int>> matches;
   UErrorCode status = U_ZERO_ERROR;
   std::unique_ptr<icu::RegexPattern> unicode_pattern(
-      icu::RegexPattern::compile(icu::UnicodeString::fromUTF8(regex), 0,
-                                 status));
+      icu::RegexPattern::compile(unicode_from_utf8(regex), 0, status));
   std::unique_ptr<icu::RegexMatcher> matcher;
   if (U_SUCCESS(status)) {
     matcher.reset(unicode_pattern->matcher(input, status));
@@ -159,7 +158,7 @@ std::vector<Split> split_normalized(
     SPLIT_DELIMITER_BEHAVIOR pattern) {
   std::vector<Split> new_splits;
   icu::UnicodeString unicode_normalized =
-      icu::UnicodeString::fromUTF8(original_split.normalized);
+      unicode_from_utf8(original_split.normalized);
   std::vector<std::pair<std::pair<int, int>, bool>> matches =
       split_fn(unicode_normalized);
   switch (pattern) {
@@ -173,10 +172,9 @@ std::vector<Split> split_normalized(
   }
   for (auto match : matches) {
     if (!match.second) {
-      std::string split_unicode_normalized;
-      unicode_normalized
-          .tempSubStringBetween(match.first.first, match.first.second)
-          .toUTF8String(split_unicode_normalized);
+      std::string split_unicode_normalized =
+          unicode_to_utf8(unicode_normalized.tempSubStringBetween(
+              match.first.first, match.first.second));
       new_splits.push_back(
           Split(split_unicode_normalized,
                 {match.first.first + original_split.offsets.first,
-- 
2.43.0


From d27ea7dc67071ded38308bbad00b874be3eb635b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 07/18] fix: reject tokenizer configs that are cut off or
 otherwise not well formed

---
 src/tokenizer.cpp | 49 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index ddbeaae..72847bb 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -5,8 +5,10 @@
 #include <unicode/unistr.h>
 
 #include <memory>
+#include <new>
 #include <numeric>
 #include <optional>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -21,6 +23,43 @@
 #include "tokenizers/pre_tokenizer.h"
 #include "tokenizers/utils.h"
 
+static void validate_json(simdjson::ondemand::value value);
+
+static void validate_json_object(simdjson::ondemand::object object) {
+  for (auto field : object) {
+    field.unescaped_key().value();
+    simdjson::ondemand::value value = field.value();
+    validate_json(value);
+  }
+}
+
+static void validate_json(simdjson::ondemand::value value) {
+  switch (value.type()) {
+    case simdjson::ondemand::json_type::object:
+      validate_json_object(value.get_object());
+      break;
+    case simdjson::ondemand::json_type::array:
+      for (simdjson::ondemand::value element : value.get_array()) {
+        validate_json(element);
+      }
+      break;
+    case simdjson::ondemand::json_type::number:
+      value.get_number().value();
+      break;
+    case simdjson::ondemand::json_type::string:
+      value.get_string().value();
+      break;
+    case simdjson::ondemand::json_type::boolean:
+      value.get_bool().value();
+      break;
+    case simdjson::ondemand::json_type::null:
+      if (!value.is_null()) {
+        throw std::invalid_argument("Tokenizer config has an invalid value");
+      }
+      break;
+  }
+}
+
 Tokenizer::Tokenizer(const std::string& path, const std::string& config) {
   if (path.length() == 0 && config.length() == 0) {
     throw std::invalid_argument(
@@ -37,8 +76,18 @@ Tokenizer::Tokenizer(const std::string& path, const std::string& config) {
     } else {
       tokenizer_json_str = simdjson::padded_string(config);
     }
+    if (tokenizer_json_str.data() == nullptr) {
+      throw std::bad_alloc();
+    }
     simdjson::ondemand::document tokenizer_json =
         parser.iterate(tokenizer_json_str);
+    // Values are parsed only when they are asked for: make sure first that the
+    // document is complete and well formed.
+    validate_json_object(tokenizer_json.get_object());
+    if (!tokenizer_json.at_end()) {
+      throw std::invalid_argument("Tokenizer config has trailing content");
+    }
+    tokenizer_json.rewind();
 
     if (!tokenizer_json["truncation"].is_null()) {
       simdjson::ondemand::object truncation_params =
-- 
2.43.0


From bb0d91cfff51658ea53335a16971a6dfad232cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 08/18] fix: handle configs without added tokens, model or
 decoder instead of dereferencing null

---
 src/added_vocabulary.cpp |  8 ++++++--
 src/tokenizer.cpp        | 23 ++++++++++++++++++++---
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 1cb7e13..ba4f1a4 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -8,6 +8,7 @@
 #include <memory>
 #include <optional>
 #include <regex>
+#include <stdexcept>
 #include <string>
 #include <tuple>
 #include <unordered_map>
@@ -54,6 +55,9 @@ std::optional<std::string> AddedVocabulary::id_to_token(int id) {
 
 int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
                                 Model* model, Normalizer* normalizer) {
+  if (model == nullptr && !tokens.empty()) {
+    throw std::invalid_argument("Adding tokens requires a model");
+  }
   for (auto token : tokens) {
     if (token.special && !token.content.empty() &&
         special_tokens_set.count(token.content) != 1) {
@@ -82,8 +86,8 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
                               const std::pair<std::string, int>& b) {
                              return a.second < b.second;
                            });
-      if (model->get_vocab_size() == 0 ||
-          (max_val_token != added_tokens_map.end() &&
+      if (max_val_token != added_tokens_map.end() &&
+          (model->get_vocab_size() == 0 ||
            max_val_token->second >= model->get_vocab_size())) {
         new_id = max_val_token->second + 1;
       } else {
diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 72847bb..7f07fa8 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -158,25 +158,42 @@ std::string Tokenizer::decode(const std::vector<int>& ids,
   std::vector<std::string> tokens;
   for (int id : ids) {
     std::string token = "";
-    std::optional<std::string> av_token = added_vocabulary->id_to_token(id);
+    std::optional<std::string> av_token;
+    if (added_vocabulary != nullptr) {
+      av_token = added_vocabulary->id_to_token(id);
+    }
     if (!av_token.has_value()) {
+      if (model == nullptr) {
+        throw std::runtime_error("Tokenizer has no model to decode with");
+      }
       token = model->id_to_token(id).value();
     } else {
       token = av_token.value();
     }
-    if (!skip_special_tokens || !added_vocabulary->is_special_token(token)) {
+    if (!skip_special_tokens || added_vocabulary == nullptr ||
+        !added_vocabulary->is_special_token(token)) {
       tokens.push_back(token);
     }
   }
-  tokens = decoder->decode_chain(tokens);
+  if (decoder != nullptr) {
+    tokens = decoder->decode_chain(tokens);
+  }
   return std::accumulate(tokens.begin(), tokens.end(), std::string{});
 }
 
 int Tokenizer::add_tokens(const std::vector<AddedToken>& tokens) {
+  if (added_vocabulary == nullptr) {
+    added_vocabulary =
+        std::make_unique<AddedVocabulary>(std::vector<AddedToken>());
+  }
   return added_vocabulary->add_tokens(tokens, model.get(), normalizer.get());
 }
 
 int Tokenizer::add_special_tokens(const std::vector<AddedToken>& tokens) {
+  if (added_vocabulary == nullptr) {
+    added_vocabulary =
+        std::make_unique<AddedVocabulary>(std::vector<AddedToken>());
+  }
   return added_vocabulary->add_special_tokens(tokens, model.get(),
                                               normalizer.get());
 }
-- 
2.43.0


From a4641d7768b5759b8a0f4ee5b9850b2da24d4eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 09/18] fix: encode texts that are empty, or whose offsets are
 unknown, without reading out of bounds

---
 src/model.cpp         |  2 +-
 src/pre_tokenizer.cpp |  2 +-
 src/tokenizer.cpp     | 18 +++++++++---------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/model.cpp b/src/model.cpp
index 072c443..0124fc4 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -233,7 +233,7 @@ void Word::merge_all(
     float dropout) {
   std::priority_queue<Merge> queue;
   std::vector<Merge> skip;
-  for (int i = 0; i < symbols.size() - 1; i++) {
+  for (int i = 0; i + 1 < symbols.size(); i++) {
     std::pair<int, int> pair = {symbols[i].c, symbols[i + 1].c};
     auto it = merges.find(pair);
     if (it != merges.end()) {
diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 822b8c3..4f7b301 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -256,7 +256,7 @@ ByteLevelPreTokenizer::ByteLevelPreTokenizer(bool add_prefix_space,
 
 PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
     PreTokenizedString pre_tokenized) const {
-  if (add_prefix_space &&
+  if (add_prefix_space && !pre_tokenized.normalized.normalized.empty() &&
       !std::iswspace(pre_tokenized.normalized.normalized.at(0))) {
     pre_tokenized.normalized.normalized =
         std::wstring(L" ") + pre_tokenized.normalized.normalized;
diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 7f07fa8..e439c44 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -203,15 +203,15 @@ Encoding into_encoding(PreTokenizedString pre_tokenized,
   Encoding encoding;
   for (int idx = 0; idx < pre_tokenized.splits.size(); idx++) {
     Split split = pre_tokenized.splits[idx];
-    std::pair<int, int> transformed_split_offset = {
-        pre_tokenized.normalized
-            .offsets[pre_tokenized.normalized.offset_ranges[split.offsets.first]
-                         .first]
-            .first,
-        pre_tokenized.normalized
-            .offsets[pre_tokenized.normalized.offset_ranges[split.offsets.first]
-                         .first]
-            .second};
+    const NormalizedString& normalized = pre_tokenized.normalized;
+    std::pair<int, int> transformed_split_offset = {0, 0};
+    if (split.offsets.first >= 0 &&
+        split.offsets.first < normalized.offset_ranges.size()) {
+      int start = normalized.offset_ranges[split.offsets.first].first;
+      if (start >= 0 && start < normalized.offsets.size()) {
+        transformed_split_offset = normalized.offsets[start];
+      }
+    }
     for (Token token : split.tokens) {
       encoding.ids.push_back(token.id);
       encoding.tokens.push_back(token.value);
-- 
2.43.0


From 7b7d4ebffbbf58a0dc76d0834e6704f4fc179831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 10/18] fix: do not let the locale of the process decide how
 text is tokenized

---
 src/added_vocabulary.cpp | 31 ++++++++++++++++++-------------
 src/model.cpp            |  3 +++
 src/normalizer.cpp       | 23 ++++++++++++++++-------
 src/pre_tokenizer.cpp    |  3 ++-
 4 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index ba4f1a4..04cdb22 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -7,7 +7,6 @@
 #include <algorithm>
 #include <memory>
 #include <optional>
-#include <regex>
 #include <stdexcept>
 #include <string>
 #include <tuple>
@@ -148,30 +147,36 @@ void AddedVocabulary::refresh_added_tokens(Model* model,
   split_non_normalized_trie = {non_normalized_tokens, non_normalized_ids};
 }
 
+// Word and space characters of the classic locale
+static bool is_word_char(char c) {
+  return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ||
+         (c >= '0' && c <= '9') || c == '_';
+}
+
+static bool is_space_char(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
+
 bool ends_with_word(std::string sentence) {
-  return std::regex_search(sentence, std::regex("\\w$"));
+  return !sentence.empty() && is_word_char(sentence.back());
 }
 
 bool starts_with_word(std::string sentence) {
-  return std::regex_search(sentence, std::regex("^\\w"));
+  return !sentence.empty() && is_word_char(sentence.front());
 }
 
 size_t space_leftmost_at_end(std::string sentence) {
-  std::smatch match;
-  if (std::regex_search(sentence, match, std::regex("\\s*$"))) {
-    return match.position();
-  } else {
-    return sentence.length();
+  size_t pos = sentence.length();
+  while (pos > 0 && is_space_char(sentence[pos - 1])) {
+    pos--;
   }
+  return pos;
 }
 
 size_t space_rightmost_at_start(std::string sentence) {
-  std::smatch match;
-  if (std::regex_search(sentence, match, std::regex("^\\s*"))) {
-    return match.length();
-  } else {
-    return 0;
+  size_t len = 0;
+  while (len < sentence.length() && is_space_char(sentence[len])) {
+    len++;
   }
+  return len;
 }
 
 std::vector<std::pair<std::optional<int>, std::pair<int, int>>>
diff --git a/src/model.cpp b/src/model.cpp
index 0124fc4..43a5751 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -5,6 +5,7 @@
 #include <unicode/unistr.h>
 
 #include <iostream>
+#include <locale>
 #include <memory>
 #include <mutex>
 #include <optional>
@@ -327,6 +328,7 @@ BPE::BPE(const std::unordered_map<std::string, int>& vocab,
   int prefix_len = continuing_subword_prefix.length();
   for (int i = 0; i < merges_list.size(); ++i) {
     std::istringstream iss(merges_list[i]);
+    iss.imbue(std::locale::classic());
     std::string part1, part2;
     if (iss >> part1 >> part2) {
       auto it1 = vocab.find(part1);
@@ -378,6 +380,7 @@ Word BPE::merge_word(std::string sequence) const {
         std::vector<std::optional<int>> tokens;
         for (auto b : sub_sequence) {
           std::ostringstream oss;
+          oss.imbue(std::locale::classic());
           oss << "<" << std::hex << std::setw(4) << std::setfill('0') << b
               << ">";
           auto code = oss.str();
diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index b905031..453e7c7 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <functional>
 #include <iostream>
+#include <locale>
 #include <memory>
 #include <numeric>
 #include <optional>
@@ -425,7 +426,7 @@ bool is_whitespace(wchar_t c) {
     case L'\r':
       return true;
     default:
-      return std::iswspace(c);
+      return u_isUWhiteSpace(static_cast<UChar32>(c));
   }
 }
 
@@ -436,7 +437,7 @@ bool is_control(wchar_t c) {
     case L'\r':
       return false;
     default:
-      return std::iswcntrl(c);
+      return u_charType(static_cast<UChar32>(c)) == U_CONTROL_CHAR;
   }
 }
 
@@ -527,7 +528,9 @@ NormalizedString BertNormalizer::do_strip_accents(NormalizedString normalized) {
 
 NormalizedString BertNormalizer::do_lowercase(NormalizedString normalized) {
   std::wstring result = normalized.normalized;
-  std::transform(result.begin(), result.end(), result.begin(), std::towlower);
+  std::transform(result.begin(), result.end(), result.begin(), [](wchar_t c) {
+    return static_cast<wchar_t>(u_tolower(static_cast<UChar32>(c)));
+  });
   normalized.normalized = result;
   return normalized;
 }
@@ -560,7 +563,9 @@ Replace::Replace(const std::string& pattern, const std::string& content)
     : pattern(pattern), content(content) {}
 
 NormalizedString Replace::normalize(NormalizedString normalized) const {
-  std::wregex regex_pattern(convert_from_string(pattern));
+  std::wregex regex_pattern;
+  regex_pattern.imbue(std::locale::classic());
+  regex_pattern.assign(convert_from_string(pattern));
   std::vector<int> replace_ids;
   std::wsregex_iterator it(normalized.normalized.begin(),
                            normalized.normalized.end(), regex_pattern);
@@ -584,6 +589,11 @@ NormalizedString Replace::normalize(NormalizedString normalized) const {
   return normalized;
 }
 
+// std::isspace of the classic locale
+static bool is_space(unsigned char c) {
+  return c == ' ' || (c >= '\t' && c <= '\r');
+}
+
 Strip::Strip(bool strip_left, bool strip_right)
     : strip_left(strip_left), strip_right(strip_right) {}
 
@@ -591,13 +601,12 @@ NormalizedString Strip::normalize(NormalizedString normalized) const {
   int start = 0, end = normalized.normalized.size();
   if (strip_left) {
     while (start < normalized.normalized.size() &&
-           std::isspace(
-               static_cast<unsigned char>(normalized.normalized[start]))) {
+           is_space(static_cast<unsigned char>(normalized.normalized[start]))) {
       ++start;
     }
   }
   if (strip_right) {
-    while (end > start && std::isspace(static_cast<unsigned char>(
+    while (end > start && is_space(static_cast<unsigned char>(
                               normalized.normalized[end - 1]))) {
       --end;
     }
diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 4f7b301..24906d5 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -257,7 +257,8 @@ ByteLevelPreTokenizer::ByteLevelPreTokenizer(bool add_prefix_space,
 PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
     PreTokenizedString pre_tokenized) const {
   if (add_prefix_space && !pre_tokenized.normalized.normalized.empty() &&
-      !std::iswspace(pre_tokenized.normalized.normalized.at(0))) {
+      !u_isUWhiteSpace(static_cast<UChar32>(
+          pre_tokenized.normalized.normalized.at(0)))) {
     pre_tokenized.normalized.normalized =
         std::wstring(L" ") + pre_tokenized.normalized.normalized;
     pre_tokenized.normalized.transform(0, "add", std::wstring(L" ").length());
-- 
2.43.0


From 73eed43283551aba468b0653c365afb0335e0052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 11/18] fix: make adding tokens all or nothing

---
 src/tokenizer.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index e439c44..5a5919e 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -182,20 +182,22 @@ std::string Tokenizer::decode(const std::vector<int>& ids,
 }
 
 int Tokenizer::add_tokens(const std::vector<AddedToken>& tokens) {
-  if (added_vocabulary == nullptr) {
-    added_vocabulary =
-        std::make_unique<AddedVocabulary>(std::vector<AddedToken>());
-  }
-  return added_vocabulary->add_tokens(tokens, model.get(), normalizer.get());
+  // Added to a copy, so that a failure leaves the vocabulary as it was.
+  AddedVocabulary updated = added_vocabulary != nullptr
+                                ? *added_vocabulary
+                                : AddedVocabulary(std::vector<AddedToken>());
+  int added = updated.add_tokens(tokens, model.get(), normalizer.get());
+  added_vocabulary = std::make_unique<AddedVocabulary>(std::move(updated));
+  return added;
 }
 
 int Tokenizer::add_special_tokens(const std::vector<AddedToken>& tokens) {
-  if (added_vocabulary == nullptr) {
-    added_vocabulary =
-        std::make_unique<AddedVocabulary>(std::vector<AddedToken>());
-  }
-  return added_vocabulary->add_special_tokens(tokens, model.get(),
-                                              normalizer.get());
+  AddedVocabulary updated = added_vocabulary != nullptr
+                                ? *added_vocabulary
+                                : AddedVocabulary(std::vector<AddedToken>());
+  int added = updated.add_special_tokens(tokens, model.get(), normalizer.get());
+  added_vocabulary = std::make_unique<AddedVocabulary>(std::move(updated));
+  return added;
 }
 
 Encoding into_encoding(PreTokenizedString pre_tokenized,
-- 
2.43.0


From e1fa5ab174af2ff3bc0d65dd5fde711fd93ada6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 12/18] fix: keep offset bookkeeping within bounds for every
 text

---
 src/normalizer.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 453e7c7..c5cd7e5 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -152,6 +152,10 @@ void NormalizedString::transform_range(std::pair<int, int> original_offsets,
                                        NormalizedString sub_normalized) {
   int original_start = original_offsets.first;
   int original_end = original_offsets.second;
+  if (original_start < 0 || original_start >= offset_ranges.size() ||
+      original_end < original_start || original_end > offset_ranges.size()) {
+    return;
+  }
   int offsets_start = offset_ranges[original_start].first;
   int offsets_end = original_end == offset_ranges.size()
                         ? offset_ranges[original_end - 1].first
@@ -171,16 +175,23 @@ void NormalizedString::transform_range(std::pair<int, int> original_offsets,
   int j = new_offset_ranges.size();
   for (int i = original_end; i < offset_ranges.size(); i++) {
     new_offset_ranges.push_back(
-        {new_offset_ranges[j - 1].first + new_offset_ranges[j - 1].second,
+        {j == 0 ? offset_ranges[original_start].first
+                : new_offset_ranges[j - 1].first +
+                      new_offset_ranges[j - 1].second,
          offset_ranges[i].second});
     j++;
   }
+  // Ranges may disagree with the offsets after lossy normalizations.
+  offsets_start = std::clamp<int>(offsets_start, 0, offsets.size());
+  offsets_end = std::clamp<int>(offsets_end, offsets_start, offsets.size());
   std::pair<int, int> prev;
   for (int i = 0; i < sub_normalized.offsets.size(); i++) {
     if (i == 0) {
       prev = sub_normalized.offsets[i];
-      sub_normalized.offsets[i].first = offsets[offsets_start].first;
-      sub_normalized.offsets[i].second = offsets[offsets_start].second;
+      if (offsets_start < offsets.size()) {
+        sub_normalized.offsets[i].first = offsets[offsets_start].first;
+        sub_normalized.offsets[i].second = offsets[offsets_start].second;
+      }
     } else {
       if (prev == sub_normalized.offsets[i]) {
         sub_normalized.offsets[i] = sub_normalized.offsets[i - 1];
@@ -201,12 +212,22 @@ void NormalizedString::transform_range(std::pair<int, int> original_offsets,
 }
 
 void NormalizedString::transform(int i, std::string op, int n) {
+  if (i < 0 || i >= offset_ranges.size()) {
+    return;
+  }
   int start = offset_ranges[i].first;
   int limit = offset_ranges[i].second;
+  if (start < 0 || limit < 0 || start + limit > offsets.size() ||
+      start >= offsets.size()) {
+    return;
+  }
   if (op == "erase") {
     offsets.erase(offsets.begin() + start, offsets.begin() + start + limit);
     offset_ranges.erase(offset_ranges.begin() + i,
                         offset_ranges.begin() + i + 1);
+    for (int j = i; j < offset_ranges.size(); j++) {
+      offset_ranges[j].first -= limit;
+    }
   } else if (op == "pad") {
     std::pair<int, int> offset = offsets[start];
     std::vector<std::pair<int, int>> new_offsets(2, offset);
@@ -458,10 +479,10 @@ NormalizedString BertNormalizer::do_clean_text(NormalizedString normalized) {
       } else {
         result.push_back(c);
       }
+      i++;
     } else {
       normalized.transform(i, "erase", 0);
     }
-    i++;
   }
   normalized.normalized = result;
   return normalized;
-- 
2.43.0


From 060f1d457e55cfc78e413172dab7b5c23c01bb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 13/18] fix: do not iterate regex matches over the string being
 edited

---
 src/normalizer.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index c5cd7e5..d99fbdf 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -588,19 +588,24 @@ NormalizedString Replace::normalize(NormalizedString normalized) const {
   regex_pattern.imbue(std::locale::classic());
   regex_pattern.assign(convert_from_string(pattern));
   std::vector<int> replace_ids;
-  std::wsregex_iterator it(normalized.normalized.begin(),
-                           normalized.normalized.end(), regex_pattern);
+  // Matched against a copy, because the string is edited on the way.
+  const std::wstring original = normalized.normalized;
+  std::wsregex_iterator it(original.begin(), original.end(), regex_pattern);
   std::wsregex_iterator end;
   std::wstring replace_content = convert_from_string(content);
   while (it != end) {
     std::wsmatch match = *it;
-    replace_ids.push_back(match.position());
-    normalized.normalized.erase(normalized.normalized.begin() +
-                                match.position());
-    normalized.normalized.insert(
-        normalized.normalized.begin() + match.position(),
-        replace_content.begin(), replace_content.end());
     ++it;
+    if (match.length() == 0) {
+      continue;
+    }
+    int position = match.position() + normalized.normalized.length() -
+                   original.length();
+    replace_ids.push_back(match.position());
+    normalized.normalized.erase(normalized.normalized.begin() + position);
+    normalized.normalized.insert(normalized.normalized.begin() + position,
+                                 replace_content.begin(),
+                                 replace_content.end());
   }
   int multi = 0;
   for (auto i : replace_ids) {
-- 
2.43.0


From 82f89c1851061f4b00661edf3e2a5546d0332910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 14/18] fix: reject special tokens whose ids and tokens do not
 pair up

---
 src/post_processor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index 91c4754..28865ad 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -9,6 +9,7 @@
 #include <iostream>
 #include <memory>
 #include <numeric>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -100,6 +101,10 @@ std::unique_ptr<PostProcessor> with_post_processor(
           tokens.push_back(std::string(
               static_cast<std::string_view>(token_elem.value().get_string())));
         }
+        if (ids.size() != tokens.size()) {
+          throw std::invalid_argument(
+              "Special token has different numbers of ids and tokens");
+        }
         special_tokens.push_back(SpecialToken(id, ids, tokens));
       }
     }
-- 
2.43.0


From 0fb3b86f96bdeea1c9849c777abe52c9d72d1f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 15/18] fix: truncate with every stride and direction, or
 throw, instead of looping or reading out of bounds

---
 src/utils.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 8d1c6f4..7c3667c 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -4,6 +4,7 @@
 #include <algorithm>
 #include <memory>
 #include <optional>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -55,6 +56,10 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
     return encoding;
   }
   int offset = max_length - stride;
+  if (offset <= 0) {
+    throw std::invalid_argument(
+        "Truncation stride must be less than the max length");
+  }
   bool end = false;
   std::vector<std::pair<int, int>> parts_ranges;
   if (direction == RIGHT_TRUNCATION_DIRECTION) {
@@ -66,8 +71,8 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
       }
     }
   } else if (direction == LEFT_TRUNCATION_DIRECTION) {
-    for (int stop = encoding.ids.size() - 1; stop >= 0; stop -= offset) {
-      stop += 1;
+    for (int last = encoding.ids.size() - 1; last >= 0; last -= offset) {
+      int stop = last + 1;
       int start = stop < max_length ? 0 : stop - max_length;
       if (start < stop && !end) {
         end = start == 0;
@@ -75,6 +80,9 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
       }
     }
   }
+  if (parts_ranges.empty()) {
+    throw std::invalid_argument("Unknown truncation direction");
+  }
   std::pair<int, int> elem = parts_ranges[0];
   Encoding new_encoding(
       std::vector<int>(encoding.ids.begin() + elem.first,
-- 
2.43.0


From b2047a2492ed7a431609f1817f40c26795a25494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 16/18] fix: turn every failure inside the Android binding into
 a Java exception

---
 .../src/main/cpp/tokenizers_android_jni.cpp   | 106 ++++++++++++++++--
 1 file changed, 95 insertions(+), 11 deletions(-)

diff --git a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
index 080695d..368f263 100644
--- a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
+++ b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
@@ -1,15 +1,53 @@
 #include <jni.h>
 
+#include <exception>
+#include <memory>
+#include <new>
 #include <string>
 #include <vector>
 
 #include "tokenizers/tokenizer.h"
 
+// Raises a Java exception, unless one is pending already.
+static void throw_java(JNIEnv *env, const char *class_name,
+                       const char *message) {
+  if (env->ExceptionCheck()) {
+    return;
+  }
+  jclass exception_class = env->FindClass(class_name);
+  if (exception_class != nullptr) {
+    env->ThrowNew(exception_class, message);
+    env->DeleteLocalRef(exception_class);
+  }
+}
+
+// To be called in a catch block: no C++ exception may reach the JVM.
+static void rethrow_as_java(JNIEnv *env) {
+  try {
+    throw;
+  } catch (const std::bad_alloc &e) {
+    throw_java(env, "java/lang/OutOfMemoryError", e.what());
+  } catch (const std::exception &e) {
+    throw_java(env, "java/lang/RuntimeException", e.what());
+  } catch (...) {
+    throw_java(env, "java/lang/RuntimeException", "Unknown tokenizer error");
+  }
+}
+
 extern "C" JNIEXPORT jlong JNICALL
 Java_xyz_omkar_tokenizers_Tokenizer_newTokenizer(JNIEnv *env, jobject thiz,
                                                  jstring config) {
   const char *config_str = env->GetStringUTFChars(config, nullptr);
-  Tokenizer *tokenizer = new Tokenizer("", std::string(config_str));
+  if (config_str == nullptr) {
+    throw_java(env, "java/lang/OutOfMemoryError", "Cannot read config");
+    return 0;
+  }
+  Tokenizer *tokenizer = nullptr;
+  try {
+    tokenizer = new Tokenizer("", std::string(config_str));
+  } catch (...) {
+    rethrow_as_java(env);
+  }
   env->ReleaseStringUTFChars(config, config_str);
   return (jlong)tokenizer;
 }
@@ -19,14 +57,37 @@ Java_xyz_omkar_tokenizers_Tokenizer_encode(JNIEnv *env, jobject thiz,
                                            jboolean add_special_tokens) {
   Tokenizer *tokenizer = reinterpret_cast<Tokenizer *>(native_ptr);
   const jchar *sequence_str = env->GetStringChars(sequence, nullptr);
+  if (sequence_str == nullptr) {
+    throw_java(env, "java/lang/OutOfMemoryError", "Cannot read sequence");
+    return nullptr;
+  }
   jsize sequence_length = env->GetStringLength(sequence);
-  std::wstring wsequence(sequence_str, sequence_str + sequence_length);
+  std::wstring wsequence;
+  bool copied = false;
+  try {
+    wsequence.assign(sequence_str, sequence_str + sequence_length);
+    copied = true;
+  } catch (...) {
+    rethrow_as_java(env);
+  }
   env->ReleaseStringChars(sequence, sequence_str);
-  Encoding encoding = tokenizer->encode(wsequence, add_special_tokens);
-  jintArray ids_array = env->NewIntArray(encoding.ids.size());
-  env->SetIntArrayRegion(ids_array, 0, encoding.ids.size(),
-                         encoding.ids.data());
-  return ids_array;
+  if (!copied) {
+    return nullptr;
+  }
+  try {
+    Encoding encoding = tokenizer->encode(wsequence, add_special_tokens);
+    jintArray ids_array = env->NewIntArray(encoding.ids.size());
+    if (ids_array == nullptr) {
+      throw_java(env, "java/lang/OutOfMemoryError", "Cannot create ids");
+      return nullptr;
+    }
+    env->SetIntArrayRegion(ids_array, 0, encoding.ids.size(),
+                           encoding.ids.data());
+    return ids_array;
+  } catch (...) {
+    rethrow_as_java(env);
+    return nullptr;
+  }
 }
 extern "C" JNIEXPORT jstring JNICALL Java_xyz_omkar_tokenizers_Tokenizer_decode(
     JNIEnv *env, jobject thiz, jlong native_ptr, jintArray ids,
@@ -34,8 +95,31 @@ extern "C" JNIEXPORT jstring JNICALL Java_xyz_omkar_tokenizers_Tokenizer_decode(
   Tokenizer *tokenizer = reinterpret_cast<Tokenizer *>(native_ptr);
   jsize length = env->GetArrayLength(ids);
   jint *ids_array = env->GetIntArrayElements(ids, nullptr);
-  std::vector<int> ids_vector(ids_array, ids_array + length);
+  if (ids_array == nullptr) {
+    throw_java(env, "java/lang/OutOfMemoryError", "Cannot read ids");
+    return nullptr;
+  }
+  std::vector<int> ids_vector;
+  bool copied = false;
+  try {
+    ids_vector.assign(ids_array, ids_array + length);
+    copied = true;
+  } catch (...) {
+    rethrow_as_java(env);
+  }
   env->ReleaseIntArrayElements(ids, ids_array, 0);
-  std::string decoded = tokenizer->decode(ids_vector, skip_special_tokens);
-  return env->NewStringUTF(decoded.c_str());
-}
\ No newline at end of file
+  if (!copied) {
+    return nullptr;
+  }
+  try {
+    std::string decoded = tokenizer->decode(ids_vector, skip_special_tokens);
+    jstring result = env->NewStringUTF(decoded.c_str());
+    if (result == nullptr) {
+      throw_java(env, "java/lang/OutOfMemoryError", "Cannot create text");
+    }
+    return result;
+  } catch (...) {
+    rethrow_as_java(env);
+    return nullptr;
+  }
+}
-- 
2.43.0


From d9a390067769a67085fffbbedd8afc19dae93a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 17/18] fix: pass text outside the basic multilingual plane
 through the Android binding

---
 .../src/main/cpp/tokenizers_android_jni.cpp   | 31 ++++++++++++++++---
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
index 368f263..174c5ec 100644
--- a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
+++ b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
@@ -6,6 +6,7 @@
 #include <string>
 #include <vector>
 
+#include "tokenizers/common.h"
 #include "tokenizers/tokenizer.h"
 
 // Raises a Java exception, unless one is pending already.
@@ -37,18 +38,24 @@ static void rethrow_as_java(JNIEnv *env) {
 extern "C" JNIEXPORT jlong JNICALL
 Java_xyz_omkar_tokenizers_Tokenizer_newTokenizer(JNIEnv *env, jobject thiz,
                                                  jstring config) {
-  const char *config_str = env->GetStringUTFChars(config, nullptr);
+  const jchar *config_str = env->GetStringChars(config, nullptr);
   if (config_str == nullptr) {
     throw_java(env, "java/lang/OutOfMemoryError", "Cannot read config");
     return 0;
   }
   Tokenizer *tokenizer = nullptr;
   try {
-    tokenizer = new Tokenizer("", std::string(config_str));
+    icu::UnicodeString unicode_config(
+        reinterpret_cast<const char16_t *>(config_str),
+        env->GetStringLength(config));
+    if (unicode_config.isBogus()) {
+      throw std::bad_alloc();
+    }
+    tokenizer = new Tokenizer("", unicode_to_utf8(unicode_config));
   } catch (...) {
     rethrow_as_java(env);
   }
-  env->ReleaseStringUTFChars(config, config_str);
+  env->ReleaseStringChars(config, config_str);
   return (jlong)tokenizer;
 }
 extern "C" JNIEXPORT jintArray JNICALL
@@ -65,7 +72,17 @@ Java_xyz_omkar_tokenizers_Tokenizer_encode(JNIEnv *env, jobject thiz,
   std::wstring wsequence;
   bool copied = false;
   try {
-    wsequence.assign(sequence_str, sequence_str + sequence_length);
+    wsequence.reserve(sequence_length);
+    for (jsize i = 0; i < sequence_length; i++) {
+      jchar unit = sequence_str[i];
+      if (unit >= 0xD800 && unit <= 0xDBFF && i + 1 < sequence_length &&
+          sequence_str[i + 1] >= 0xDC00 && sequence_str[i + 1] <= 0xDFFF) {
+        wsequence.push_back(0x10000 + ((unit - 0xD800) << 10) +
+                            (sequence_str[++i] - 0xDC00));
+      } else {
+        wsequence.push_back(unit);
+      }
+    }
     copied = true;
   } catch (...) {
     rethrow_as_java(env);
@@ -113,7 +130,11 @@ extern "C" JNIEXPORT jstring JNICALL Java_xyz_omkar_tokenizers_Tokenizer_decode(
   }
   try {
     std::string decoded = tokenizer->decode(ids_vector, skip_special_tokens);
-    jstring result = env->NewStringUTF(decoded.c_str());
+    icu::UnicodeString unicode_decoded = unicode_from_utf8(decoded);
+    static_assert(sizeof(jchar) == sizeof(char16_t), "jchar is UTF-16");
+    jstring result = env->NewString(
+        reinterpret_cast<const jchar *>(unicode_decoded.getBuffer()),
+        unicode_decoded.length());
     if (result == nullptr) {
       throw_java(env, "java/lang/OutOfMemoryError", "Cannot create text");
     }
-- 
2.43.0


From 00c6427d377280e9b8a2a4cbd7ed3dca2cd91ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:49 +0000
Subject: [PATCH 18/18] fix: Replace takes its pattern literally, so that long
 texts do not exhaust the stack

---
 src/normalizer.cpp | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index d99fbdf..127674a 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -12,7 +12,6 @@
 #include <memory>
 #include <numeric>
 #include <optional>
-#include <regex>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -584,28 +583,21 @@ Replace::Replace(const std::string& pattern, const std::string& content)
     : pattern(pattern), content(content) {}
 
 NormalizedString Replace::normalize(NormalizedString normalized) const {
-  std::wregex regex_pattern;
-  regex_pattern.imbue(std::locale::classic());
-  regex_pattern.assign(convert_from_string(pattern));
+  const std::wstring search = convert_from_string(pattern);
   std::vector<int> replace_ids;
   // Matched against a copy, because the string is edited on the way.
   const std::wstring original = normalized.normalized;
-  std::wsregex_iterator it(original.begin(), original.end(), regex_pattern);
-  std::wsregex_iterator end;
   std::wstring replace_content = convert_from_string(content);
-  while (it != end) {
-    std::wsmatch match = *it;
-    ++it;
-    if (match.length() == 0) {
-      continue;
-    }
-    int position = match.position() + normalized.normalized.length() -
-                   original.length();
-    replace_ids.push_back(match.position());
+  size_t found = search.empty() ? std::wstring::npos : original.find(search);
+  while (found != std::wstring::npos) {
+    int position =
+        found + normalized.normalized.length() - original.length();
+    replace_ids.push_back(found);
     normalized.normalized.erase(normalized.normalized.begin() + position);
     normalized.normalized.insert(normalized.normalized.begin() + position,
                                  replace_content.begin(),
                                  replace_content.end());
+    found = original.find(search, found + search.length());
   }
   int multi = 0;
   for (auto i : replace_ids) {
-- 
2.43.0

