From 1d20392e5c20cfb08d6b47eefc9adf61e20257da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:40 +0000
Subject: [PATCH 01/30] fix: keep the choices of the following readings when
 the first one is deleted

---
 src/Engine/gramambular2/reading_grid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Engine/gramambular2/reading_grid.cpp b/src/Engine/gramambular2/reading_grid.cpp
index 65bbd63..fbaf7de 100644
--- a/src/Engine/gramambular2/reading_grid.cpp
+++ b/src/Engine/gramambular2/reading_grid.cpp
@@ -372,7 +372,8 @@ void ReadingGrid::removeAffectedNodes(size_t loc) {
   //                XXXXX
   //            XXXXXXXXX
   //
-  if (spans_.empty()) {
+  // No node can straddle the beginning of the grid.
+  if (spans_.empty() || loc == 0) {
     return;
   }
   size_t affectedLength = kMaximumSpanLength - 1;
-- 
2.43.0


From 392cc1ad822e51eb14f4ea111bf201415ebdc0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 02/30] fix: find the last row by its value even without a
 final newline

---
 src/Engine/ParselessPhraseDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Engine/ParselessPhraseDB.cpp b/src/Engine/ParselessPhraseDB.cpp
index 1d49e9f..b47b4ab 100644
--- a/src/Engine/ParselessPhraseDB.cpp
+++ b/src/Engine/ParselessPhraseDB.cpp
@@ -186,7 +186,7 @@ std::vector<std::string> ParselessPhraseDB::reverseFindRows(
       ++recordEnd;
     }
 
-    if (ptr + value.length() < end_ &&
+    if (ptr + value.length() <= end_ &&
         memcmp(ptr, value.data(), value.length()) == 0) {
       // prefix match, add entire record to return value
       rows.emplace_back(recordBegin, recordEnd - recordBegin);
-- 
2.43.0


From d4c384643d6171ba594019d78788c28c8c09c2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 03/30] fix: report a reading as known only if it offers a word

---
 src/Engine/McBopomofoLM.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/Engine/McBopomofoLM.cpp b/src/Engine/McBopomofoLM.cpp
index f498ae3..4756f7d 100644
--- a/src/Engine/McBopomofoLM.cpp
+++ b/src/Engine/McBopomofoLM.cpp
@@ -170,10 +170,8 @@ bool McBopomofoLM::hasUnigrams(const std::string& key) {
     return true;
   }
 
-  if (!excludedPhrases_.hasUnigrams(key)) {
-    return userPhrases_.hasUnigrams(key) || languageModel_.hasUnigrams(key);
-  }
-
+  // A key can have rows but offer nothing: its values may all be excluded, or be
+  // macros that are not supported.
   return !getUnigrams(key).empty();
 }
 
-- 
2.43.0


From 43b94d474ef50b38c983999555a00cc61651c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 04/30] fix: do not read past the end of a truncated Bopomofo
 string

---
 src/Engine/Mandarin/Mandarin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Engine/Mandarin/Mandarin.cpp b/src/Engine/Mandarin/Mandarin.cpp
index e5a8152..7817258 100644
--- a/src/Engine/Mandarin/Mandarin.cpp
+++ b/src/Engine/Mandarin/Mandarin.cpp
@@ -603,7 +603,7 @@ const BPMF BPMF::FromComposedString(const std::string& str) {
     }
     // NOLINTEND(readability-magic-numbers)
 
-    if (iter + (utf8_length - 1) == str.end()) {
+    if (str.end() - iter < utf8_length) {
       break;
     }
 
-- 
2.43.0


From 4add806fec4613288672a44aff868c78aab41d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 05/30] fix: leave Pinyin mode when the keyboard layout is
 switched

---
 src/Engine/Mandarin/Mandarin.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Engine/Mandarin/Mandarin.h b/src/Engine/Mandarin/Mandarin.h
index b797e0a..73371b5 100644
--- a/src/Engine/Mandarin/Mandarin.h
+++ b/src/Engine/Mandarin/Mandarin.h
@@ -373,12 +373,12 @@ class BopomofoReadingBuffer {
   }
 
   void setKeyboardLayout(const BopomofoKeyboardLayout* layout) {
-    layout_ = layout;
-
-    if (layout == BopomofoKeyboardLayout::HanyuPinyinLayout()) {
-      pinyin_mode_ = true;
-      pinyin_sequence_ = "";
+    if (layout != layout_) {
+      clear();
     }
+
+    layout_ = layout;
+    pinyin_mode_ = layout == BopomofoKeyboardLayout::HanyuPinyinLayout();
   }
 
   const BopomofoKeyboardLayout* keyboardLayout() const { return layout_; }
-- 
2.43.0


From 51ae8a00618d197b655b6a4045a9ce9da9c92518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:21 +0000
Subject: [PATCH 06/30] fix: create the user data directory on a fresh install

---
 src/LanguageModelLoader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index 51d270d..0dc93af 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -76,7 +76,7 @@ LanguageModelLoader::LanguageModelLoader(
 
   [[maybe_unused]] std::error_code err;
   if (!std::filesystem::exists(userDataPath, err)) {
-    bool result = std::filesystem::create_directory(userDataPath, err);
+    bool result = std::filesystem::create_directories(userDataPath, err);
     if (result) {
       FCITX_MCBOPOMOFO_INFO()
           << "Created fcitx5 user data directory: " << userDataPath;
@@ -88,7 +88,7 @@ LanguageModelLoader::LanguageModelLoader(
   }
 
   userDataPath += "/mcbopomofo";
-  if (!std::filesystem::exists(userDataPath), err) {
+  if (!std::filesystem::exists(userDataPath, err)) {
     bool result = std::filesystem::create_directory(userDataPath, err);
     if (result) {
       FCITX_MCBOPOMOFO_INFO()
-- 
2.43.0


From 70bcf16aff2fbfa5a69d9a59b54b60de1e493073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 07/30] fix: recognise a failed memory mapping

---
 src/Engine/MemoryMappedFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Engine/MemoryMappedFile.cpp b/src/Engine/MemoryMappedFile.cpp
index d6e8952..814689f 100644
--- a/src/Engine/MemoryMappedFile.cpp
+++ b/src/Engine/MemoryMappedFile.cpp
@@ -68,9 +68,10 @@ bool MemoryMappedFile::open(const char* path) {
   length_ = static_cast<size_t>(sb.st_size);
 
   data_ = mmap(nullptr, length_, PROT_READ, MAP_SHARED, fd_, 0);
-  if (data_ == nullptr) {
+  if (data_ == MAP_FAILED) {
     ::close(fd_);
     fd_ = -1;
+    data_ = nullptr;
     length_ = 0;
     return false;
   }
-- 
2.43.0


From 208b1f80a602cb71567d2b087c44d5ce61a6c4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:55 +0000
Subject: [PATCH 08/30] fix: leave a moved-from mapping with no length

---
 src/Engine/MemoryMappedFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Engine/MemoryMappedFile.cpp b/src/Engine/MemoryMappedFile.cpp
index 814689f..99296a7 100644
--- a/src/Engine/MemoryMappedFile.cpp
+++ b/src/Engine/MemoryMappedFile.cpp
@@ -35,7 +35,7 @@ namespace McBopomofo {
 MemoryMappedFile::MemoryMappedFile(MemoryMappedFile&& other) noexcept
     : fd_(std::exchange(other.fd_, -1)),
       data_(std::exchange(other.data_, nullptr)),
-      length_(std::exchange(other.length_, -1)) {}
+      length_(std::exchange(other.length_, 0)) {}
 
 MemoryMappedFile& MemoryMappedFile::operator=(
     MemoryMappedFile&& other) noexcept {
-- 
2.43.0


From 8cf14a23c293ef61d8e59a748c12425210f0dc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 09/30] fix: keep the loaded user entries when their file is
 rewritten in place

---
 src/Engine/PhraseReplacementMap.cpp | 5 ++---
 src/Engine/PhraseReplacementMap.h   | 3 ++-
 src/Engine/UserPhrasesLM.cpp        | 6 +++---
 src/Engine/UserPhrasesLM.h          | 3 ++-
 4 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/Engine/PhraseReplacementMap.cpp b/src/Engine/PhraseReplacementMap.cpp
index 9a4739a..d3f0a41 100644
--- a/src/Engine/PhraseReplacementMap.cpp
+++ b/src/Engine/PhraseReplacementMap.cpp
@@ -57,7 +57,7 @@ bool PhraseReplacementMap::load(const char* data, size_t length) {
   KeyValueBlobReader reader(data, length);
   KeyValueBlobReader::KeyValue keyValue;
   while (reader.Next(&keyValue) == KeyValueBlobReader::State::HAS_PAIR) {
-    keyValueMap_[keyValue.key] = keyValue.value;
+    keyValueMap_[std::string(keyValue.key)] = std::string(keyValue.value);
   }
   return true;
 }
@@ -65,8 +65,7 @@ bool PhraseReplacementMap::load(const char* data, size_t length) {
 std::string PhraseReplacementMap::valueForKey(const std::string& key) const {
   auto iter = keyValueMap_.find(key);
   if (iter != keyValueMap_.end()) {
-    const std::string_view& v = iter->second;
-    return std::string(v);
+    return iter->second;
   }
   return {};
 }
diff --git a/src/Engine/PhraseReplacementMap.h b/src/Engine/PhraseReplacementMap.h
index 1d2ce7b..3d0d135 100644
--- a/src/Engine/PhraseReplacementMap.h
+++ b/src/Engine/PhraseReplacementMap.h
@@ -50,7 +50,8 @@ class PhraseReplacementMap {
   std::string valueForKey(const std::string& key) const;
 
  protected:
-  std::map<std::string_view, std::string_view> keyValueMap_;
+  // Owns the strings: the file may be rewritten in place while it is mapped.
+  std::map<std::string, std::string> keyValueMap_;
   MemoryMappedFile mmapedFile_;
 };
 
diff --git a/src/Engine/UserPhrasesLM.cpp b/src/Engine/UserPhrasesLM.cpp
index 7d6e57f..8e45d11 100644
--- a/src/Engine/UserPhrasesLM.cpp
+++ b/src/Engine/UserPhrasesLM.cpp
@@ -63,7 +63,7 @@ bool UserPhrasesLM::load(const char* data, size_t length) {
     // is the phrase (value) and the second column is the Bopofomo reading. The
     // KeyValueBlobReader::KeyValue's value is the second column, that's why
     // it's used as the key of the keyRowMap here.
-    keyRowMap[keyValue.value].emplace_back(keyValue.key);
+    keyRowMap[std::string(keyValue.value)].emplace_back(keyValue.key);
   }
   return true;
 }
@@ -73,9 +73,9 @@ UserPhrasesLM::getUnigrams(const std::string& key) {
   std::vector<Formosa::Gramambular2::LanguageModel::Unigram> v;
   auto iter = keyRowMap.find(key);
   if (iter != keyRowMap.end()) {
-    const std::vector<std::string_view>& values = iter->second;
+    const std::vector<std::string>& values = iter->second;
     for (const auto& value : values) {
-      v.emplace_back(std::string(value), kUserUnigramScore);
+      v.emplace_back(value, kUserUnigramScore);
     }
   }
 
diff --git a/src/Engine/UserPhrasesLM.h b/src/Engine/UserPhrasesLM.h
index e58e048..81303f9 100644
--- a/src/Engine/UserPhrasesLM.h
+++ b/src/Engine/UserPhrasesLM.h
@@ -58,7 +58,8 @@ class UserPhrasesLM : public Formosa::Gramambular2::LanguageModel {
 
  protected:
   MemoryMappedFile mmapedFile_;
-  std::map<std::string_view, std::vector<std::string_view>> keyRowMap;
+  // Owns the strings: the file may be rewritten in place while it is mapped.
+  std::map<std::string, std::vector<std::string>> keyRowMap;
 };
 
 }  // namespace McBopomofo
-- 
2.43.0


From 6f87f9def6f4cff97e45de05fc3b12a3f4085b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:56 +0000
Subject: [PATCH 10/30] fix: add a user phrase on a line of its own

---
 src/LanguageModelLoader.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index 0dc93af..a062113 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -136,8 +136,18 @@ void LanguageModelLoader::addUserPhrase(const std::string_view& reading,
     return;
   }
 
-  // TODO(unassigned): Guard against the case where the last byte is not "\n"?
+  // Guard against the case where the last byte is not "\n".
+  bool needsNewline = false;
+  std::ifstream ifs(userPhrasesPath_.path(), std::ios_base::binary);
+  if (ifs.seekg(-1, std::ios_base::end)) {
+    needsNewline = ifs.get() != '\n';
+  }
+  ifs.close();
+
   std::ofstream ofs(userPhrasesPath_.path(), std::ios_base::app);
+  if (needsNewline) {
+    ofs << "\n";
+  }
   ofs << phrase << " " << reading << "\n";
   ofs.close();
 
-- 
2.43.0


From 62dab3dc7437eee45c9ea1462388e951f4d86f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 11/30] fix: assign the characters of an associated phrase to
 their own readings

---
 src/KeyHandler.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 7dff5cb..b1006a3 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -1601,14 +1601,17 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
   }
 
   for (size_t i = nodeSpanningLength; i < splitReadingsSize; i++) {
-    grid_.insertReading(splitReadings[i]);
-    ++accumulatedCursor;
+    if (!grid_.insertReading(splitReadings[i])) {
+      // Not a reading that the language model knows.
+      continue;
+    }
     // For each node, we assign the value of the corresponding phrase.
     // If the phrase is not found in the phrase database, we perform a fallback
     // instead.
     if (i < associatedPhraseValues.size()) {
       grid_.overrideCandidate(accumulatedCursor, associatedPhraseValues[i]);
     }
+    ++accumulatedCursor;
     grid_.setCursor(accumulatedCursor);
   }
 
-- 
2.43.0


From c499bd151b610fc80e5e7aab9c611d2393547475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 12/30] fix: do not lose the space typed with Shift in plain
 Bopomofo mode

---
 src/KeyHandler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index b1006a3..a66bc94 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -240,7 +240,8 @@ bool KeyHandler::handle(Key key, McBopomofo::InputState* state,
 
   // Shift + Space.
   if (key.ascii == Key::SPACE && key.shiftPressed) {
-    if (putLowercaseLettersToComposingBuffer_) {
+    if (putLowercaseLettersToComposingBuffer_ &&
+        inputMode_ != InputMode::PlainBopomofo) {
       grid_.insertReading(" ");
       walk();
       stateCallback(buildInputtingState());
-- 
2.43.0


From ad67a00c4afefb5329c32eff1d5d218f370d983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 13/30] fix: compose nothing after leaving a menu opened with
 nothing composed

---
 src/KeyHandler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index a66bc94..9926ddb 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -571,6 +571,11 @@ void KeyHandler::candidatePanelCancelled(size_t originalCursor,
     stateCallback(std::move(emptyIgnorePreviousState));
     return;
   }
+  if (grid_.length() == 0 && reading_.isEmpty()) {
+    // Nothing was being composed, for example in the feature menu.
+    stateCallback(std::make_unique<InputStates::EmptyIgnoringPrevious>());
+    return;
+  }
   grid_.setCursor(originalCursor);
   stateCallback(buildInputtingState());
 }
-- 
2.43.0


From b6388d34e4e99f522cc0849a2c7fdec8ede294f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:15 +0000
Subject: [PATCH 14/30] fix: insert an associated phrase whose beginning is
 only a part of a longer word

---
 src/KeyHandler.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 9926ddb..ce776fc 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -1580,24 +1580,30 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
   // associated phrase.
   Formosa::Gramambular2::ReadingGrid::Candidate prefixCandidate{prefixReading,
                                                                 prefixValue};
-  if (!grid_.overrideCandidate(actualPrefixCursorIndex, prefixCandidate)) {
-    return;
-  }
+  bool prefixIsNode =
+      grid_.overrideCandidate(actualPrefixCursorIndex, prefixCandidate);
   walk();
 
   // Now we've set ourselves up. Because associated phrases require the strict
   // one-reading-for-one-value rule, we can comfortably count how many readings
   // we'll need to insert. First, let's move to the end of the newly overridden
-  // phrase.
-  nodeIter =
-      latestWalk_.findNodeAt(actualPrefixCursorIndex, &accumulatedCursor);
+  // phrase. If the prefix is not a phrase by itself, for example when it is
+  // only a part of a longer word, its characters are the ones split above.
+  size_t nodeSpanningLength = 0;
+  if (prefixIsNode) {
+    nodeIter =
+        latestWalk_.findNodeAt(actualPrefixCursorIndex, &accumulatedCursor);
+    nodeSpanningLength = (*nodeIter)->spanningLength();
+  } else {
+    nodeSpanningLength = AssociatedPhrasesV2::SplitReadings(prefixReading).size();
+    accumulatedCursor = actualPrefixCursorIndex + 1;
+  }
   grid_.setCursor(accumulatedCursor);
 
   // Compute how many more reading do we have to insert.
   std::vector<std::string> associatedPhraseValues =
       McBopomofo::Split(associatedPhraseValue);
 
-  size_t nodeSpanningLength = (*nodeIter)->spanningLength();
   std::vector<std::string> splitReadings =
       AssociatedPhrasesV2::SplitReadings(associatedPhraseReading);
   size_t splitReadingsSize = splitReadings.size();
-- 
2.43.0


From b1dc6f02d5633bf5f4939999d5be963357327309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:14 +0000
Subject: [PATCH 15/30] fix: put an associated phrase where its beginning is,
 not on an equal word overlapping it

---
 src/KeyHandler.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index ce776fc..eb912d9 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -769,7 +769,7 @@ bool KeyHandler::handleAssociatedPhrases(InputStates::Inputting* state,
       }
 
       auto associatedPhrasesState = buildAssociatedPhrasesState(
-          buildInputtingState(), prefixCursorIndex,
+          buildInputtingState(), startCursorIndex + startIndex,
           AssociatedPhrasesV2::CombineReadings(rdSlice), value.str(),
           /*selectedCandidateIndex=*/0, useShiftKey);
       if (associatedPhrasesState != nullptr) {
@@ -1596,9 +1596,10 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
     nodeSpanningLength = (*nodeIter)->spanningLength();
   } else {
     nodeSpanningLength = AssociatedPhrasesV2::SplitReadings(prefixReading).size();
-    accumulatedCursor = actualPrefixCursorIndex + 1;
+    accumulatedCursor = actualPrefixCursorIndex + nodeSpanningLength;
   }
   grid_.setCursor(accumulatedCursor);
+  size_t phraseStartIndex = accumulatedCursor - nodeSpanningLength;
 
   // Compute how many more reading do we have to insert.
   std::vector<std::string> associatedPhraseValues =
@@ -1628,8 +1629,9 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
   }
 
   // Finally, let's override with the full associated phrase's value.
-  if (!grid_.overrideCandidate(actualPrefixCursorIndex,
-                               associatedPhraseValue)) {
+  Formosa::Gramambular2::ReadingGrid::Candidate phraseCandidate{
+      associatedPhraseReading, associatedPhraseValue};
+  if (!grid_.overrideCandidate(phraseStartIndex, phraseCandidate)) {
     // Shouldn't happen
   }
 
-- 
2.43.0


From 9ab3e4c07d9d0ac515d61abab038978a13bdefce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:51 +0000
Subject: [PATCH 16/30] fix: honour the configured number of selection keys

---
 src/McBopomofo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 9d5e77e..0ea4f97 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -31,6 +31,7 @@
 #include <fmt/format.h>
 #include <notifications_public.h>  // from fcitx-module/notifications
 
+#include <algorithm>
 #include <memory>
 #include <sstream>
 #include <unordered_map>
@@ -1267,6 +1268,9 @@ void McBopomofoEngine::handleCandidatesState(fcitx::InputContext* context,
       numpadSelectionKeys_.emplace_back(FcitxKey_KP_8);
       numpadSelectionKeys_.emplace_back(FcitxKey_KP_9);
     }
+    selectionKeys_.resize(
+        std::min(selectionKeys_.size(),
+                 static_cast<size_t>(config_.selectionKeysCount.value())));
     candidateList->setSelectionKey(selectionKeys_);
     candidateList->setPageSize(static_cast<int>(selectionKeys_.size()));
   }
-- 
2.43.0


From 39f58d3ba9be17c9f1a5e993624615749b7ccf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:17 +0000
Subject: [PATCH 17/30] fix: map the numeric keypad 9 to 9

---
 src/McBopomofo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 0ea4f97..24cb9fb 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -156,7 +156,7 @@ static Key MapFcitxKey(const fcitx::Key& key) {
     case FcitxKey_KP_8:
       return Key::asciiKey('8', shiftPressed, ctrlPressed, true);
     case FcitxKey_KP_9:
-      return Key::asciiKey('4', shiftPressed, ctrlPressed, true);
+      return Key::asciiKey('9', shiftPressed, ctrlPressed, true);
     case FcitxKey_KP_Decimal:
       return Key::asciiKey('.', shiftPressed, ctrlPressed, true);
     case FcitxKey_KP_Add:
-- 
2.43.0


From 3a1a07c6bfb620856d5fde7c7dd622faf732f156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:16 +0000
Subject: [PATCH 18/30] fix: look up the highlighted candidate on a partly
 filled last page too

---
 src/McBopomofo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 24cb9fb..3f3e682 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -796,10 +796,14 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
     if (choosingCandidate != nullptr) {
       // Enter selecting dictionary service state.
       if (keyHandler_->hasDictionaryServices()) {
+#ifdef USE_LEGACY_FCITX5_API
         int page = candidateList->currentPage();
         int pageSize = candidateList->size();
         int selectedCandidateIndex =
             page * pageSize + candidateList->cursorIndex();
+#else
+        int selectedCandidateIndex = candidateList->globalCursorIndex();
+#endif
         std::string phrase =
             choosingCandidate->candidates[selectedCandidateIndex].value;
         std::unique_ptr<InputStates::ChoosingCandidate> copy =
-- 
2.43.0


From 6714963dec43bae0573eb350d3b6ef10d974afd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:16 +0000
Subject: [PATCH 19/30] fix: do not read the state that leaving a list opened
 on a list destroys

---
 src/McBopomofo.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 3f3e682..17d2213 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -893,6 +893,8 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
       auto* previous = selecting->previousState.get();
       auto* choosing = dynamic_cast<InputStates::ChoosingCandidate*>(previous);
       if (choosing != nullptr) {
+        // Entering the next state destroys the current one.
+        size_t index = selecting->selectedCandidateIndex;
         auto copy = std::make_unique<InputStates::ChoosingCandidate>(*choosing);
         stateCallback(std::move(copy));
 
@@ -903,7 +905,6 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         auto* maybeCandidateList = dynamic_cast<fcitx::CommonCandidateList*>(
             context->inputPanel().candidateList().get());
 #endif
-        size_t index = selecting->selectedCandidateIndex;
         // Make sure fcitx5 shows the candidate page; needed when page > 0.
 #ifndef USE_LEGACY_FCITX5_API
         maybeCandidateList->setPage(static_cast<int>(index) /
@@ -928,6 +929,8 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
       auto* choosing = dynamic_cast<InputStates::ChoosingCandidate*>(previous);
       auto* inputting = dynamic_cast<InputStates::Inputting*>(previous);
       if (choosing != nullptr) {
+        // Entering the next state destroys the current one.
+        size_t index = associatedPhrases->selectedCandidateIndex;
         auto copy = std::make_unique<InputStates::ChoosingCandidate>(*choosing);
         stateCallback(std::move(copy));
 
@@ -938,7 +941,6 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         auto* maybeCandidateList = dynamic_cast<fcitx::CommonCandidateList*>(
             context->inputPanel().candidateList().get());
 #endif
-        size_t index = associatedPhrases->selectedCandidateIndex;
 #ifndef USE_LEGACY_FCITX5_API
         // Make sure fcitx5 shows the candidate page; needed when page > 0.
         maybeCandidateList->setPage(static_cast<int>(index) /
-- 
2.43.0


From 29a91d405829b69f3b21eab9ce9f68ed42a81388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:16 +0000
Subject: [PATCH 20/30] fix: choose a candidate after the panel's paging
 buttons were used

---
 src/McBopomofo.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 17d2213..5792d50 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -865,7 +865,9 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
   }
 
   if (returnPressed) {
-    int idx = candidateList->cursorIndex();
+    // No candidate on the current page is highlighted if the panel's own
+    // paging buttons were used; take the first one then.
+    int idx = std::max(candidateList->cursorIndex(), 0);
     if (idx < candidateList->size()) {
 #ifdef USE_LEGACY_FCITX5_API
       candidateList->candidate(idx)->select(context);
@@ -1104,7 +1106,7 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         keyHandler_->handleCandidateKeyForTraditionalBopomofoIfRequired(
             MapFcitxKey(key),
             [candidateList, context] {
-              auto idx = candidateList->cursorIndex();
+              auto idx = std::max(candidateList->cursorIndex(), 0);
               if (idx < candidateList->size()) {
 #ifdef USE_LEGACY_FCITX5_API
                 candidateList->candidate(idx)->select(context);
-- 
2.43.0


From 68daa0ecfe9b40cc183b770f3126067b6c03d099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:53 +0000
Subject: [PATCH 21/30] fix: ignore dictionary service entries that are not as
 expected

---
 src/DictionaryService.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/DictionaryService.cpp b/src/DictionaryService.cpp
index 9cf8e18..fa0ee0b 100644
--- a/src/DictionaryService.cpp
+++ b/src/DictionaryService.cpp
@@ -193,14 +193,16 @@ void McBopomofo::DictionaryServices::load() {
     return;
   }
   struct json_object* servicesArray;
-  if (json_object_object_get_ex(json_obj, "services", &servicesArray)) {
+  if (json_object_object_get_ex(json_obj, "services", &servicesArray) &&
+      json_object_is_type(servicesArray, json_type_array)) {
     array_list* list = json_object_get_array(servicesArray);
     for (size_t i = 0; i < array_list_length(list); i++) {
       auto* element = (struct json_object*)array_list_get_idx(list, i);
       struct json_object* name;
       struct json_object* url_template;
       if (json_object_object_get_ex(element, "name", &name) &&
-          json_object_object_get_ex(element, "url_template", &url_template)) {
+          json_object_object_get_ex(element, "url_template", &url_template) &&
+          name != nullptr && url_template != nullptr) {
         std::string name_str = std::string(json_object_get_string(name));
         std::string url_template_str =
             std::string(json_object_get_string(url_template));
-- 
2.43.0


From 8bc40073454a99d9041d95da2cec752df29d34f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:53 +0000
Subject: [PATCH 22/30] fix: keep what follows the placeholder in a dictionary
 service's address

---
 src/DictionaryService.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DictionaryService.cpp b/src/DictionaryService.cpp
index fa0ee0b..479f39f 100644
--- a/src/DictionaryService.cpp
+++ b/src/DictionaryService.cpp
@@ -93,7 +93,10 @@ class HttpBasedDictionaryService : public McBopomofo::DictionaryService {
               const McBopomofo::StateCallback& stateCallback) override {
     std::string url = urlTemplate_;
     std::string encoded = "(encoded)";
-    url.replace(url.find(encoded), url.length(), urlEncode(phrase));
+    size_t pos = url.find(encoded);
+    if (pos != std::string::npos) {
+      url.replace(pos, encoded.length(), urlEncode(phrase));
+    }
     fcitx::startProcess({"xdg-open", url});
     // Since the input method launches a web browser, we just
     // change the state to close the candidate window.
-- 
2.43.0


From 0066602a3c15ccb935a6e5769e8e22f77c477a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:15 +0000
Subject: [PATCH 23/30] fix: do not deliver the composed text again after a
 dictionary look-up

---
 src/KeyHandler.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index eb912d9..8cba709 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -557,8 +557,15 @@ void KeyHandler::candidateAssociatedPhraseSelected(
 void KeyHandler::dictionaryServiceSelected(std::string phrase, size_t index,
                                            InputState* currentState,
                                            StateCallback stateCallback) {
-  dictionaryServices_->lookup(std::move(phrase), index, currentState,
-                              stateCallback);
+  dictionaryServices_->lookup(
+      std::move(phrase), index, currentState,
+      [this, &stateCallback](std::unique_ptr<InputState> next) {
+        // What was composed is committed when the next state is empty.
+        if (dynamic_cast<InputStates::Empty*>(next.get()) != nullptr) {
+          reset();
+        }
+        stateCallback(std::move(next));
+      });
 }
 
 void KeyHandler::candidatePanelCancelled(size_t originalCursor,
-- 
2.43.0


From c48a342210976f4cc6824bbae6fe243c45019e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:15 +0000
Subject: [PATCH 24/30] fix: do not show or commit again what was composed when
 the focus was lost

---
 src/McBopomofo.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 5792d50..3d6cae5 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -587,6 +587,12 @@ void McBopomofoEngine::activate(const fcitx::InputMethodEntry& entry,
   keyHandler_->setHalfWidthPunctuationEnabled(
       config_.halfWidthPunctuationEnable.value());
   languageModelLoader_->reloadUserModelsIfNeeded();
+
+  // What was shown when the focus was lost is still in the panel (see reset()
+  // below). It has been committed, and nothing is being composed now.
+  inputContext->inputPanel().reset();
+  inputContext->updatePreedit();
+  inputContext->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
 }
 
 void McBopomofoEngine::reset(const fcitx::InputMethodEntry& /*unused*/,
-- 
2.43.0


From 839bdad4a0a0684fe9d7ef2df445e3fff77a6039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:16 +0000
Subject: [PATCH 25/30] fix: show nothing after the application resets the
 input context

---
 src/McBopomofo.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 3d6cae5..4c50503 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -613,6 +613,15 @@ void McBopomofoEngine::reset(const fcitx::InputMethodEntry& /*unused*/,
     // commit of existing preedit buffer, resulting in double commit of the same
     // text.
     state_ = std::make_unique<InputStates::Empty>();
+
+    if (event.type() == fcitx::EventType::InputContextReset) {
+      // The application gave up what was being composed.
+      auto* inputContext = event.inputContext();
+      inputContext->inputPanel().reset();
+      inputContext->updatePreedit();
+      inputContext->updateUserInterface(
+          fcitx::UserInterfaceComponent::InputPanel);
+    }
   } else {
     enterNewState(event.inputContext(), std::make_unique<InputStates::Empty>());
   }
-- 
2.43.0


From 092894f4a6c4f69d6068e2075b480320b9554b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 26/30] fix: do not leave the user's files in a conflicted
 rebase after adding a phrase

---
 data/add-phrase-hook.sh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/data/add-phrase-hook.sh b/data/add-phrase-hook.sh
index 3419ffd..49e1906 100644
--- a/data/add-phrase-hook.sh
+++ b/data/add-phrase-hook.sh
@@ -11,6 +11,7 @@ git add .
 PHRASE_TEXT=$1
 git commit -m "Add ${PHRASE_TEXT}"
 
-# Push to remote repository.
-git pull --rebase origin master
+# Push to remote repository. Never leave conflict markers in the user's files,
+# nor a rebase that later runs would have to finish.
+git pull --rebase origin master || git rebase --abort
 git push origin master
-- 
2.43.0


From d5be082dc77f940a6560213a523f19c24a1dfc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 27/30] fix: name the phrase in the commit of the installed
 add-phrase hook

---
 data/add-phrase-hook.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/add-phrase-hook.sh b/data/add-phrase-hook.sh
index 49e1906..617bcdc 100644
--- a/data/add-phrase-hook.sh
+++ b/data/add-phrase-hook.sh
@@ -9,7 +9,7 @@ git checkout master
 # Commit changed files.
 git add .
 PHRASE_TEXT=$1
-git commit -m "Add ${PHRASE_TEXT}"
+git commit -m "Add $PHRASE_TEXT"
 
 # Push to remote repository. Never leave conflict markers in the user's files,
 # nor a rebase that later runs would have to finish.
-- 
2.43.0


From d69f8bc4eaf3428f3f0ac0fe468864377cfed269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 28/30] fix: read the scores of data files the same way in
 every locale

std::stod() follows LC_NUMERIC, which fcitx5 sets from the environment, so
that "-6.75" was read as -6 where the decimal point is a comma.
---
 src/Engine/AssociatedPhrasesV2.cpp |  3 +-
 src/Engine/ParselessLM.cpp         |  6 ++--
 src/Engine/ScoreParser.h           | 46 ++++++++++++++++++++++++++++++
 3 files changed, 52 insertions(+), 3 deletions(-)
 create mode 100644 src/Engine/ScoreParser.h

diff --git a/src/Engine/AssociatedPhrasesV2.cpp b/src/Engine/AssociatedPhrasesV2.cpp
index bd6f8c4..3ceb875 100644
--- a/src/Engine/AssociatedPhrasesV2.cpp
+++ b/src/Engine/AssociatedPhrasesV2.cpp
@@ -30,6 +30,7 @@
 #include <unordered_set>
 #include <utility>
 
+#include "ScoreParser.h"
 #include "UTF8Helper.h"
 
 namespace McBopomofo {
@@ -57,7 +58,7 @@ static double GetScoreInRow(const std::string_view& v) {
     return std::numeric_limits<double>::lowest();
   }
 
-  return std::stod(std::string(it, end));
+  return ParseScore(std::string(it, end));
 }
 
 // Parse an associated phrases entry to the Phrase struct.
diff --git a/src/Engine/ParselessLM.cpp b/src/Engine/ParselessLM.cpp
index 2cd6211..15c57e9 100644
--- a/src/Engine/ParselessLM.cpp
+++ b/src/Engine/ParselessLM.cpp
@@ -32,6 +32,8 @@
 #include <string_view>
 #include <utility>
 
+#include "ScoreParser.h"
+
 namespace McBopomofo {
 
 bool ParselessLM::isLoaded() const { return db_ != nullptr; }
@@ -101,7 +103,7 @@ ParselessLM::getUnigrams(const std::string& key) {
     }
 
     if (it != row.end()) {
-      score = std::stod(std::string(it, row.end()));
+      score = ParseScore(std::string(it, row.end()));
     }
     results.emplace_back(std::move(value), score);
   }
@@ -160,7 +162,7 @@ std::vector<ParselessLM::FoundReading> ParselessLM::getReadings(
     }
 
     if (it != row.end()) {
-      score = std::stod(std::string(it, row.end()));
+      score = ParseScore(std::string(it, row.end()));
     }
     results.emplace_back(ParselessLM::FoundReading{key, score});
   }
diff --git a/src/Engine/ScoreParser.h b/src/Engine/ScoreParser.h
new file mode 100644
index 0000000..24ad22f
--- /dev/null
+++ b/src/Engine/ScoreParser.h
@@ -0,0 +1,46 @@
+// Copyright (c) 2024 and onwards The McBopomofo Authors.
+//
+// Permission is hereby granted, free of charge, to any person
+// obtaining a copy of this software and associated documentation
+// files (the "Software"), to deal in the Software without
+// restriction, including without limitation the rights to use,
+// copy, modify, merge, publish, distribute, sublicense, and/or sell
+// copies of the Software, and to permit persons to whom the
+// Software is furnished to do so, subject to the following
+// conditions:
+//
+// The above copyright notice and this permission notice shall be
+// included in all copies or substantial portions of the Software.
+//
+// THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND,
+// EXPRESS OR IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES
+// OF MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND
+// NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR COPYRIGHT
+// HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY,
+// WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING
+// FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR
+// OTHER DEALINGS IN THE SOFTWARE.
+
+#ifndef SRC_ENGINE_SCOREPARSER_H_
+#define SRC_ENGINE_SCOREPARSER_H_
+
+#include <locale>
+#include <sstream>
+#include <string>
+
+namespace McBopomofo {
+
+// Parses a score in a data file. The files always use "." as the decimal
+// point, and so this must not use functions such as std::stod(), which follow
+// the locale of the process.
+inline double ParseScore(const std::string& s) {
+  std::istringstream stream(s);
+  stream.imbue(std::locale::classic());
+  double score = 0;
+  stream >> score;
+  return score;
+}
+
+}  // namespace McBopomofo
+
+#endif  // SRC_ENGINE_SCOREPARSER_H_
-- 
2.43.0


From 93e7a0dee8f63f3b162035f82b0685aa436d4cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 29/30] fix: percent-encode look-ups the same way in every
 locale

std::isalnum() follows LC_CTYPE: in ISO-8859-1 and the like, many bytes of a
word in UTF-8 are letters and were left as they are.
---
 src/DictionaryService.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DictionaryService.cpp b/src/DictionaryService.cpp
index 479f39f..1f0c3ea 100644
--- a/src/DictionaryService.cpp
+++ b/src/DictionaryService.cpp
@@ -43,7 +43,10 @@ std::string urlEncode(const std::string& str) {
   encodedStream << std::hex << std::uppercase << std::setfill('0');
 
   for (char c : str) {
-    if (std::isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~') {
+    // Not std::isalnum(), which follows the locale of the process.
+    if ((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') ||
+        (c >= 'a' && c <= 'z') || c == '-' || c == '_' || c == '.' ||
+        c == '~') {
       encodedStream << c;
     } else {
       encodedStream << '%' << std::setw(2)
-- 
2.43.0


From 5e8b2c1f4e4d854b9e024f6e2742ea43dfc04111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:04 +0000
Subject: [PATCH 30/30] fix: accept the same Pinyin keys in every locale

tolower() follows LC_CTYPE: in Turkish, tolower('I') is not 'i', so that the
letter was not taken as Pinyin and committed the composed text instead.
---
 src/Engine/Mandarin/Mandarin.cpp |  2 +-
 src/Engine/Mandarin/Mandarin.h   | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Engine/Mandarin/Mandarin.cpp b/src/Engine/Mandarin/Mandarin.cpp
index 7817258..d1ae9bc 100644
--- a/src/Engine/Mandarin/Mandarin.cpp
+++ b/src/Engine/Mandarin/Mandarin.cpp
@@ -64,7 +64,7 @@ const BPMF BPMF::FromHanyuPinyin(const std::string& str) {
   }
 
   std::string pinyin = str;
-  transform(pinyin.begin(), pinyin.end(), pinyin.begin(), ::tolower);
+  transform(pinyin.begin(), pinyin.end(), pinyin.begin(), ToLowerASCII);
 
   BPMF::Component firstComponent = 0;
   BPMF::Component secondComponent = 0;
diff --git a/src/Engine/Mandarin/Mandarin.h b/src/Engine/Mandarin/Mandarin.h
index 73371b5..0f4fd77 100644
--- a/src/Engine/Mandarin/Mandarin.h
+++ b/src/Engine/Mandarin/Mandarin.h
@@ -33,6 +33,12 @@
 namespace Formosa {
 namespace Mandarin {
 
+// Unlike tolower(), does not follow the locale of the process: in Turkish,
+// tolower('I') is not 'i'.
+inline char ToLowerASCII(char c) {
+  return c >= 'A' && c <= 'Z' ? static_cast<char>(c - 'A' + 'a') : c;
+}
+
 class BopomofoSyllable {
  public:
   typedef uint16_t Component;
@@ -388,7 +394,7 @@ class BopomofoReadingBuffer {
       return layout_ ? (layout_->keyToComponents(k)).size() > 0 : false;
     }
 
-    char lk = tolower(k);
+    char lk = ToLowerASCII(k);
     if (lk >= 'a' && lk <= 'z') {
       // if a tone marker is already in place
       if (pinyin_sequence_.length()) {
@@ -412,7 +418,7 @@ class BopomofoReadingBuffer {
     if (!isValidKey(k)) return false;
 
     if (pinyin_mode_) {
-      pinyin_sequence_ += std::string(1, tolower(k));
+      pinyin_sequence_ += std::string(1, ToLowerASCII(k));
       syllable_ = BPMF::FromHanyuPinyin(pinyin_sequence_);
       return true;
     }
-- 
2.43.0

