From d80bcdfe12479004822d724da72d99003434bdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:03 +0000
Subject: [PATCH 01/30] fix: isCharWithVariationSelector must not accept more
 than one character

---
 libs/kana/src/Utf8Char.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/kana/src/Utf8Char.cpp b/libs/kana/src/Utf8Char.cpp
index 8630c20..cc141a2 100644
--- a/libs/kana/src/Utf8Char.cpp
+++ b/libs/kana/src/Utf8Char.cpp
@@ -66,7 +66,8 @@ bool Utf8Char::isCharWithVariationSelector(const String& s) {
   static constexpr auto MinSize{VarSelectorSize + MinMBSize},
       MaxSize{VarSelectorSize + MaxMBSize};
   return s.size() >= MinSize && s.size() <= MaxSize &&
-         isVariationSelector(s.substr(s.size() - VarSelectorSize));
+         isVariationSelector(s.substr(s.size() - VarSelectorSize)) &&
+         isValidMBUtf8(s.substr(0, s.size() - VarSelectorSize), true);
 }
 
 String Utf8Char::noVariationSelector(const String& s) {
-- 
2.43.0


From ce723392e630e9e99f8fa71b5311516aa8b7f256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:29 +0000
Subject: [PATCH 02/30] fix: ColumnFile numbers must reject signs, spaces and
 trailing text

---
 libs/utils/src/ColumnFile.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/utils/src/ColumnFile.cpp b/libs/utils/src/ColumnFile.cpp
index 141df70..8520c5b 100644
--- a/libs/utils/src/ColumnFile.cpp
+++ b/libs/utils/src/ColumnFile.cpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <charconv>
 #include <set>
 #include <sstream>
 
@@ -118,12 +119,12 @@ ColumnFile::OptU64 ColumnFile::getOptU64(const Column& c, uint64_t max) const {
 
 uint64_t ColumnFile::processU64(
     const String& s, const Column& column, uint64_t max) const {
+  // don't use 'stoul' since it allows leading spaces, signs and trailing text
   uint64_t i{};
-  try {
-    i = std::stoul(s);
-  } catch (...) {
+  const auto end{s.data() + s.size()};
+  if (const auto r{std::from_chars(s.data(), end, i)};
+      r.ec != std::errc{} || r.ptr != end)
     error("failed to convert to unsigned number", column, s);
-  }
   if (max && max < i)
     error("exceeded max value of " + std::to_string(max), column, s);
   return i;
-- 
2.43.0


From cf39e23ddc024473fd5730f2e783d95b756cc04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:19 +0000
Subject: [PATCH 03/30] fix: enum containers must not wrap indexes and offsets
 at 256

---
 libs/utils/include/kt_utils/EnumContainer.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/utils/include/kt_utils/EnumContainer.h b/libs/utils/include/kt_utils/EnumContainer.h
index 9847a8e..f6a0a8b 100644
--- a/libs/utils/include/kt_utils/EnumContainer.h
+++ b/libs/utils/include/kt_utils/EnumContainer.h
@@ -144,7 +144,8 @@ template <scoped_enum T, Enum::Size N> template <typename I>
 requires std::integral<I> || std::same_as<T, I>
 auto EnumContainer<T, N>::checkIndex(I i, const String& name) {
   const auto x{static_cast<Size>(i)};
-  if (x >= N) {
+  // a value that changes when cast to Size (like '256') is also out of range
+  if (static_cast<intmax_t>(i) != x || x >= N) {
     String msg{name};
     if constexpr (std::is_same_v<I, T>)
       msg += "enum value " + std::to_string(x);
@@ -197,12 +198,13 @@ auto EnumContainer<T, N>::Iterator<Derived>::operator[](
 template <scoped_enum T, Enum::Size N>
 template <typename Derived>
 auto& EnumContainer<T, N>::Iterator<Derived>::operator+=(difference_type i) {
-  if (difference_type curIndex{index()}; (curIndex += i) < 0)
+  const difference_type curIndex{index()};
+  if (i < -curIndex)
     rangeError(BadBegin);
-  else if (const auto j{static_cast<Size>(curIndex)}; j > N)
+  else if (i > difference_type{N} - curIndex)
     rangeError(BadEnd);
   else
-    index() = j;
+    index() = static_cast<Size>(curIndex + i);
   return derived();
 }
 
-- 
2.43.0


From 7cae1f06bdd447989dca9b7ee188b3d9fa4bcb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:10 +0000
Subject: [PATCH 04/30] =?UTF-8?q?fix:=20R=C5=8Dmaji=20letters=20pending=20?=
 =?UTF-8?q?before=20other=20text=20must=20not=20move=20behind=20it?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 libs/kana/include/kt_kana/Converter.h | 1 +
 libs/kana/src/Converter.cpp           | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/libs/kana/include/kt_kana/Converter.h b/libs/kana/include/kt_kana/Converter.h
index f325ab8..2e5a4e3 100644
--- a/libs/kana/include/kt_kana/Converter.h
+++ b/libs/kana/include/kt_kana/Converter.h
@@ -189,6 +189,7 @@ private:
   [[nodiscard]] String toKana(const String&) const;
 
   /// helper functions used by toKana() @{
+  void flushRomaji(String& romajiLetters, String& result) const;
   void processRomaji(String& romajiLetters, String& result) const;
   [[nodiscard]] bool processRomajiMacron(
       const String& letter, String& letters, String& result) const; ///@}
diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index 063af05..6f9f7fe 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -312,9 +312,14 @@ String Converter::toKana(const String& romajiInput) const {
         letters = letter; // 'n' starts a new group
       }
     } else if (!processRomajiMacron(letter, letters, result)) {
-      processRomaji(letters, result);
+      flushRomaji(letters, result);
       result += letter;
     }
+  flushRomaji(letters, result);
+  return result;
+}
+
+void Converter::flushRomaji(String& letters, String& result) const {
   while (!letters.empty())
     if (isN(letters)) {
       result += getN(); // normal case for a word ending in 'n'
@@ -324,7 +329,6 @@ String Converter::toKana(const String& romajiInput) const {
       letters = letters.substr(1);
       processRomaji(letters, result);
     }
-  return result;
 }
 
 void Converter::processRomaji(String& letters, String& result) const {
-- 
2.43.0


From 69ed7a8535c4cd63c9530e25bdbf680469aea06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:15 +0000
Subject: [PATCH 05/30] =?UTF-8?q?fix:=20R=C5=8Dmaji=20following=20a=20lett?=
 =?UTF-8?q?er=20that=20can't=20be=20converted=20must=20be=20converted?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 libs/kana/src/Converter.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index 6f9f7fe..d524028 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -307,8 +307,8 @@ String Converter::toKana(const String& romajiInput) const {
         // got two 'n's in a row so output one, but don't clear letters
         result += getN();
       else {
-        // error: partial romaji followed by n, output unconverted partial group
-        result += letters;
+        // error: partial romaji followed by n, output partial group
+        flushRomaji(letters, result);
         letters = letter; // 'n' starts a new group
       }
     } else if (!processRomajiMacron(letter, letters, result)) {
@@ -347,9 +347,11 @@ void Converter::processRomaji(String& letters, String& result) const {
                         ? getSmallTsu()
                         : letters.substr(0, 1) // error: first letter not valid
                   : letters.substr(0, 1);      // error: first letter not valid
-    letters = letters.substr(1);
-    // try converting the shortened letters
-    processRomaji(letters, result);
+    // try converting the shortened letters (one at a time since the next letter
+    // could be a vowel that can be converted on its own)
+    const auto rest{letters.substr(1)};
+    letters.clear();
+    for (const auto j : rest) processRomaji(letters += j, result);
   }
 }
 
-- 
2.43.0


From f67f64f61c0424b02f6270610832d657bb70eb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:20 +0000
Subject: [PATCH 06/30] fix: doubled upper case consonants must also become a
 small tsu

---
 libs/kana/src/Converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index d524028..6953866 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -343,7 +343,7 @@ void Converter::processRomaji(String& letters, String& result) const {
     // unconverted since no valid romaji can be longer than 3 letters
     result += lower[0] == 'n' ? getN()
               : lower[0] == lower[1] || lower[0] == 't' && lower[1] == 'c'
-                  ? repeatingConsonants().contains(letters[0])
+                  ? repeatingConsonants().contains(lower[0])
                         ? getSmallTsu()
                         : letters.substr(0, 1) // error: first letter not valid
                   : letters.substr(0, 1);      // error: first letter not valid
-- 
2.43.0


From cc5948bc577f964fb71d321ab7465a56aeb92fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:24 +0000
Subject: [PATCH 07/30] fix: upper case letters with macrons must be converted
 like lower case ones

---
 libs/kana/src/Converter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index 6953866..f2ab8df 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -359,7 +359,9 @@ bool Converter::processRomajiMacron(
     const String& letter, String& letters, String& result) const {
   static const std::map<String, std::pair<char, String>> Macrons{
       {"ā", {'a', "あ"}}, {"ī", {'i', "い"}}, // GCOV_EXCL_LINE
-      {"ū", {'u', "う"}}, {"ē", {'e', "え"}}, {"ō", {'o', "お"}}};
+      {"ū", {'u', "う"}}, {"ē", {'e', "え"}}, {"ō", {'o', "お"}},
+      {"Ā", {'a', "あ"}}, {"Ī", {'i', "い"}}, {"Ū", {'u', "う"}},
+      {"Ē", {'e', "え"}}, {"Ō", {'o', "お"}}};
 
   if (const auto i{Macrons.find(letter)}; i != Macrons.end()) {
     processRomaji(letters += i->second.first, result);
-- 
2.43.0


From d313615b56ff5b3d89bc1cecbf25189955db0b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:29 +0000
Subject: [PATCH 08/30] fix: small tsu followed by a Kana and an extra small
 Kana must be converted

---
 libs/kana/src/Converter.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index f2ab8df..cc85911 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -261,12 +261,13 @@ String Converter::processKana(const String& kanaGroup, CharType source,
                    ? processKanaMacron(prolong, prevKana, i->second, true)
                    : processKana(firstKana, source, prevKana) +
                          processKanaMacron(prolong, prevKana, i->second);
-      // return second part unconverted - this should be impossible by design
-      // since only Kana that exists in sourceMap are added to 'kanaGroup'
-      // XCOV_EXCL_START
-      return processKana(firstKana, source, prevKana) +
-             kanaGroup.substr(Kana::OneKanaSize);
-      // XCOV_EXCL_STOP
+      // small tsu followed by two Kana that aren't a digraph (like 'っかぁ') so
+      // process the first two (which handles sokuon) and then the last one
+      const auto lastKana{kanaGroup.size() - Kana::OneKanaSize};
+      const auto first{
+          processKana(kanaGroup.substr(0, lastKana), source, prevKana)};
+      return first +
+             processKana(kanaGroup.substr(lastKana), source, prevKana, prolong);
     }
   } else if (prolong)
     // a 'prolong mark' at the start of a group isn't valid so in this case just
-- 
2.43.0


From 8a6e2422ae83c27abe927c0420f17ce929d7b090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:52 +0000
Subject: [PATCH 09/30] =?UTF-8?q?fix:=20apostrophe=20and=20sokuon=20must?=
 =?UTF-8?q?=20follow=20the=20R=C5=8Dmaji=20selected=20by=20Hepburn=20or=20?=
 =?UTF-8?q?Kunrei?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 libs/kana/include/kt_kana/Converter.h |  3 +++
 libs/kana/src/Converter.cpp           | 11 +++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/libs/kana/include/kt_kana/Converter.h b/libs/kana/include/kt_kana/Converter.h
index 2e5a4e3..96cc449 100644
--- a/libs/kana/include/kt_kana/Converter.h
+++ b/libs/kana/include/kt_kana/Converter.h
@@ -164,6 +164,9 @@ private:
   [[nodiscard]] const String& getN() const;
   [[nodiscard]] const String& getSmallTsu() const;
 
+  [[nodiscard]] bool startsWithVowel(
+      const String& kana, CharType source) const;
+
   [[nodiscard]] static bool isN(const String&);
 
   /// takes a string of Kana (so 'source' is Hiragana or Katakana) and retuns
diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index cc85911..188c1cb 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -170,6 +170,13 @@ const String& Converter::getN() const { return get(Kana::N); }
 
 const String& Converter::getSmallTsu() const { return get(Kana::SmallTsu); }
 
+bool Converter::startsWithVowel(const String& kana, CharType source) const {
+  static const String Vowels{"aiueo"};
+  const auto i{Kana::getMap(source).find(kana)};
+  return i != Kana::getMap(source).end() &&
+         Vowels.find(get(*i->second)[0]) != String::npos;
+}
+
 bool Converter::isN(const String& x) { return x == "n" || x == "N"; }
 
 String Converter::fromKana(const String& kanaInput, CharType source) const {
@@ -184,7 +191,7 @@ String Converter::fromKana(const String& kanaInput, CharType source) const {
     // NOLINTNEXTLINE: NonNullParamChecker
     result += processKana(kanaGroup, source, prevKana, dt == DoneType::Prolong);
     if (romajiTarget() && Kana::N.containsKana(kanaGroup) &&
-        afterN(source).contains(kana))
+        (afterN(source).contains(kana) || startsWithVowel(kana, source)))
       result += Apostrophe;
     kanaGroup = dt == DoneType::NewGroup ? kana : emptyString();
     state = ns;
@@ -257,7 +264,7 @@ String Converter::processKana(const String& kanaGroup, CharType source,
       if (const auto i{sourceMap.find(kanaGroup.substr(Kana::OneKanaSize))};
           i != sourceMap.end())
         return romajiTarget() && Kana::SmallTsu.containsKana(firstKana) &&
-                       repeatingConsonants().contains(i->second->romaji()[0])
+                       repeatingConsonants().contains(get(*i->second)[0])
                    ? processKanaMacron(prolong, prevKana, i->second, true)
                    : processKana(firstKana, source, prevKana) +
                          processKanaMacron(prolong, prevKana, i->second);
-- 
2.43.0


From b94031e6adf73267ef00d84752be17b9dbf28d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:57 +0000
Subject: [PATCH 10/30] fix: an 'n' before letters that can't be converted must
 also become a Kana

---
 libs/kana/src/Converter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index 188c1cb..b6be95a 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -329,11 +329,13 @@ String Converter::toKana(const String& romajiInput) const {
 
 void Converter::flushRomaji(String& letters, String& result) const {
   while (!letters.empty())
-    if (isN(letters)) {
+    if (const auto first{letters.substr(0, 1)}; isN(letters)) {
       result += getN(); // normal case for a word ending in 'n'
       letters.clear();
     } else {
-      result += letters[0]; // error: output the unprocessed letter
+      // 'n' followed by an incomplete group, otherwise it's an error so output
+      // the unprocessed letter
+      result += isN(first) ? getN() : first;
       letters = letters.substr(1);
       processRomaji(letters, result);
     }
-- 
2.43.0


From 45707478305e2d86f5fee8019c53e0e2abc6aa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:44 +0000
Subject: [PATCH 11/30] fix: iteration mark after an unusual small Kana must
 repeat the small Kana

---
 libs/kana/src/Converter.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/libs/kana/src/Converter.cpp b/libs/kana/src/Converter.cpp
index b6be95a..0c4f96c 100644
--- a/libs/kana/src/Converter.cpp
+++ b/libs/kana/src/Converter.cpp
@@ -262,12 +262,15 @@ String Converter::processKana(const String& kanaGroup, CharType source,
     if (kanaGroup.size() > Kana::OneKanaSize) {
       const auto firstKana{kanaGroup.substr(0, Kana::OneKanaSize)};
       if (const auto i{sourceMap.find(kanaGroup.substr(Kana::OneKanaSize))};
-          i != sourceMap.end())
-        return romajiTarget() && Kana::SmallTsu.containsKana(firstKana) &&
-                       repeatingConsonants().contains(get(*i->second)[0])
-                   ? processKanaMacron(prolong, prevKana, i->second, true)
-                   : processKana(firstKana, source, prevKana) +
-                         processKanaMacron(prolong, prevKana, i->second);
+          i != sourceMap.end()) {
+        if (romajiTarget() && Kana::SmallTsu.containsKana(firstKana) &&
+            repeatingConsonants().contains(get(*i->second)[0]))
+          return processKanaMacron(prolong, prevKana, i->second, true);
+        // must be done in order since both calls update 'prevKana'
+        const auto first{processKana(firstKana, source, prevKana)};
+        prevKana = nullptr;
+        return first + processKanaMacron(prolong, prevKana, i->second);
+      }
       // small tsu followed by two Kana that aren't a digraph (like 'っかぁ') so
       // process the first two (which handles sokuon) and then the last one
       const auto lastKana{kanaGroup.size() - Kana::OneKanaSize};
-- 
2.43.0


From 46e8e11dccbe09ef131c648c60b630c3aec59021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:23 +0000
Subject: [PATCH 12/30] fix: choice prompts must end when input ends instead of
 asking forever

---
 libs/kana/include/kt_kana/Choice.h |  7 +++++--
 libs/kana/src/Choice.cpp           | 23 ++++++++++++++++-------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/libs/kana/include/kt_kana/Choice.h b/libs/kana/include/kt_kana/Choice.h
index 1198a60..cf2fc62 100644
--- a/libs/kana/include/kt_kana/Choice.h
+++ b/libs/kana/include/kt_kana/Choice.h
@@ -67,10 +67,13 @@ public:
   /// \param useQuit if false then 'quit option' is not included in the choices
   /// \param choices set of choices the user must choose from
   /// \param def optional default choice (for just pressing return)
-  /// \return one of the choices from `choices` or possibly the 'quit option'
+  /// \return one of the choices from `choices` or possibly the 'quit option', if
+  ///     input ends then `def` is returned or otherwise the 'quit option'
   /// \throw DomainError if `def` is provided, but it's not in `choicesIn`
   /// \throw DomainError if 'quit option' has been set and is also in `choices`
   /// \throw DomainError if any choice in `choices` is not printable Ascii
+  /// \throw DomainError if input ends and there's neither `def` nor a usable
+  ///     'quit option'
   [[nodiscard]] char get(const String& msg, bool useQuit,
       const Choices& choices, OptChar def) const;
 
@@ -93,7 +96,7 @@ public:
   [[nodiscard]] char get(Range, const String&) const;
   [[nodiscard]] char get(Range, const String&, OptChar) const; ///@}
 private:
-  [[nodiscard]] static char getOneChar();
+  [[nodiscard]] static OptChar getOneChar(); ///< no value means end of input
   static void add(String& prompt, const Choices&);
   static void checkPrintableAscii(char x, const String& msg);
   static void error(const String&);
diff --git a/libs/kana/src/Choice.cpp b/libs/kana/src/Choice.cpp
index 3c0d604..d1a1f0e 100644
--- a/libs/kana/src/Choice.cpp
+++ b/libs/kana/src/Choice.cpp
@@ -53,18 +53,26 @@ char Choice::get(const String& msg, bool useQuit, const Choices& choices,
   do {
     _out << prompt;
     _out.flush();
+    auto endOfInput{false};
     if (_in)
-      std::getline(*_in, line);
+      endOfInput = !std::getline(*_in, line);
     else {
       // XCOV_EXCL_START - code only used in interactive mode
-      if (const auto choice{getOneChar()}; choice == '\n')
+      const auto choice{getOneChar()};
+      endOfInput = !choice;
+      if (!choice || *choice == '\n')
         line.clear();
       else
-        line = choice;
+        line = *choice;
       _out << '\n';
       // XCOV_EXCL_STOP
     }
-    if (line.empty() && def) return *def;
+    if ((endOfInput || line.empty()) && def) return *def;
+    if (endOfInput) {
+      // asking again would never end, so quit (if that's one of the choices)
+      if (useQuit && _quit) return *_quit;
+      error("end of input");
+    }
   } while (line.size() != 1 || choicesOut.find(line[0]) == choicesOut.end());
   return line[0];
 }
@@ -118,7 +126,7 @@ char Choice::get(Range range, const String& msg, OptChar def) const {
 }
 
 // XCOV_EXCL_START - this code requires user input (so not covered by tests)
-char Choice::getOneChar() {
+Choice::OptChar Choice::getOneChar() {
   static constexpr tcflag_t Icanon{ICANON}, Echo{ECHO};
   struct termios settings {};
   if (tcgetattr(0, &settings) < 0) perror("tcsetattr()");
@@ -131,13 +139,14 @@ char Choice::getOneChar() {
     perror("tcsetattr() - turning on raw mode");
   // read a single char
   char result{};
-  if (read(0, &result, 1) < 0) perror("read()");
+  const auto count{read(0, &result, 1)};
+  if (count < 0) perror("read()");
   // turn raw mode off
   settings.c_lflag |= Icanon;
   settings.c_lflag |= Echo;
   if (tcsetattr(0, TCSADRAIN, &settings) < 0)
     perror("tcsetattr() - turning off raw mode");
-  return result;
+  return count > 0 ? OptChar{result} : std::nullopt;
 }
 // XCOV_EXCL_STOP
 
-- 
2.43.0


From 3ab3dd6bc956d0a78897f98f73c7e5c647964132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:11 +0000
Subject: [PATCH 13/30] fix: kanaConvert -n must suppress the newline for
 string arguments too

---
 libs/kana/src/KanaConvert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/kana/src/KanaConvert.cpp b/libs/kana/src/KanaConvert.cpp
index 5e77ed3..58e210a 100644
--- a/libs/kana/src/KanaConvert.cpp
+++ b/libs/kana/src/KanaConvert.cpp
@@ -231,7 +231,7 @@ void KanaConvert::start(const List& strings) {
                 !(_converter.flags() & ConvertFlags::RemoveSpaces);
       convert(i);
     }
-    _out << '\n';
+    if (!_suppressNewLine) _out << '\n';
   }
 }
 
-- 
2.43.0


From 626d4d88d2da9c7791c17a986d69002481c48733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:15 +0000
Subject: [PATCH 14/30] =?UTF-8?q?fix:=20kanaConvert=20must=20separate=20co?=
 =?UTF-8?q?nverted=20arguments=20for=20R=C5=8Dmaji=20output?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 libs/kana/src/KanaConvert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/kana/src/KanaConvert.cpp b/libs/kana/src/KanaConvert.cpp
index 58e210a..75d5551 100644
--- a/libs/kana/src/KanaConvert.cpp
+++ b/libs/kana/src/KanaConvert.cpp
@@ -227,7 +227,7 @@ void KanaConvert::start(const List& strings) {
       if (space)
         _out << (_converter.target() == CharType::Romaji ? " " : "　");
       else
-        space = _converter.target() != CharType::Romaji &&
+        space = _converter.target() == CharType::Romaji ||
                 !(_converter.flags() & ConvertFlags::RemoveSpaces);
       convert(i);
     }
-- 
2.43.0


From 61a3af481c981533a481db20a795a26f255c6358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:28 +0000
Subject: [PATCH 15/30] fix: kanaConvert must not stop at a 'q' line when not
 interactive

---
 libs/kana/src/KanaConvert.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/kana/src/KanaConvert.cpp b/libs/kana/src/KanaConvert.cpp
index 75d5551..0602c01 100644
--- a/libs/kana/src/KanaConvert.cpp
+++ b/libs/kana/src/KanaConvert.cpp
@@ -237,8 +237,11 @@ void KanaConvert::start(const List& strings) {
 
 void KanaConvert::getInput() {
   if (_interactive) printOptions();
-  for (String line; std::getline(_in ? *_in : std::cin, line) && line != "q";) {
-    if (_interactive && !processLine(line)) continue;
+  for (String line; std::getline(_in ? *_in : std::cin, line);) {
+    if (_interactive) {
+      if (line == "q") break;
+      if (!processLine(line)) continue;
+    }
     convert(line);
     if (!_suppressNewLine) _out << '\n';
   }
-- 
2.43.0


From cc1b719359a30b541f242310071aba9bd4875bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:32 +0000
Subject: [PATCH 16/30] fix: errors in UCD link names must identify file and
 row

---
 libs/kanji/src/UcdData.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libs/kanji/src/UcdData.cpp b/libs/kanji/src/UcdData.cpp
index bed192d..4bd397f 100644
--- a/libs/kanji/src/UcdData.cpp
+++ b/libs/kanji/src/UcdData.cpp
@@ -184,9 +184,14 @@ Ucd::Links UcdData::loadLinks(const class ColumnFile& f, bool joyo) {
   if (!f.isEmpty(LinkNamesCol)) {
     std::stringstream names{f.get(LinkNamesCol)}, codes{f.get(LinkCodesCol)};
     for (String linkName; std::getline(names, linkName, ',');)
-      if (String linkCode; std::getline(codes, linkCode, ','))
-        links.emplace_back(f.getChar32(LinkCodesCol, linkCode), linkName);
-      else
+      if (String linkCode; std::getline(codes, linkCode, ',')) {
+        const auto code{f.getChar32(LinkCodesCol, linkCode)};
+        try {
+          links.emplace_back(code, linkName);
+        } catch (const std::exception& e) {
+          f.error(e.what());
+        }
+      } else
         f.error("LinkNames has more values than LinkCodes");
     // Joyo are standard Kanji so they shouldn't have a link back to a
     // standard form. However, Some Jinmei do have links since they are
-- 
2.43.0


From 8206f0729a413fad9c8ccde9541628a53c1a68aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:09 +0000
Subject: [PATCH 17/30] fix: list a Jukugo with a repeated Kanji once under
 that Kanji

---
 libs/quiz/src/JukugoData.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/quiz/src/JukugoData.cpp b/libs/quiz/src/JukugoData.cpp
index 7d13b96..91db12d 100644
--- a/libs/quiz/src/JukugoData.cpp
+++ b/libs/quiz/src/JukugoData.cpp
@@ -115,7 +115,11 @@ void JukugoData::createJukugo(
     const auto jukugo{std::make_shared<Jukugo>(name, reading, grade)};
     Utf8Char nameChars{name};
     for (String c; nameChars.next(c);)
-      if (isKanji(c)) _kanjiToJukugo[c].emplace_back(jukugo);
+      if (isKanji(c))
+        // a Kanji can be repeated (like 日日), but only list its Jukugo once
+        if (auto& list{_kanjiToJukugo[c]};
+            list.empty() || list.back() != jukugo)
+          list.emplace_back(jukugo);
     _uniqueJukugo.emplace(key, jukugo);
   } else if (i->second->grade() != grade)
     throw DomainError("jukugo '" + name + "' found in more than one file");
-- 
2.43.0


From 7d94e32de1b85f3c6b3efbc40ca7cd7dc5f07d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:18 +0000
Subject: [PATCH 18/30] fix: refuse Jukugo entries that go on after the close
 bracket

---
 libs/quiz/include/kt_quiz/JukugoData.h | 2 +-
 libs/quiz/src/JukugoData.cpp           | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/quiz/include/kt_quiz/JukugoData.h b/libs/quiz/include/kt_quiz/JukugoData.h
index 6bcbe1c..0695d8a 100644
--- a/libs/quiz/include/kt_quiz/JukugoData.h
+++ b/libs/quiz/include/kt_quiz/JukugoData.h
@@ -30,7 +30,7 @@ private:
   inline static const List EmptyList;
 
   static size_t findOpenBracket(const String&, bool onePerLine);
-  static size_t findCloseBracket(const String&, bool onePerLine);
+  static size_t findCloseBracket(const String&);
   static void error(const String&);
 
   void createJukugo(const String& line, KanjiGrades, bool onePerLine);
diff --git a/libs/quiz/src/JukugoData.cpp b/libs/quiz/src/JukugoData.cpp
index 91db12d..a868699 100644
--- a/libs/quiz/src/JukugoData.cpp
+++ b/libs/quiz/src/JukugoData.cpp
@@ -87,10 +87,10 @@ size_t JukugoData::findOpenBracket(const String& line, bool onePerLine) {
   return i;
 }
 
-size_t JukugoData::findCloseBracket(const String& line, bool onePerLine) {
+size_t JukugoData::findCloseBracket(const String& line) {
   const auto i{line.find(')')};
   if (i == String::npos) error("failed to find close bracket");
-  if (onePerLine && i != line.size() - 1)
+  if (i != line.size() - 1)
     error("close bracket should be the last character");
   return i;
 }
@@ -100,7 +100,7 @@ void JukugoData::error(const String& msg) { throw DomainError(msg); }
 void JukugoData::createJukugo(
     const String& line, KanjiGrades grade, bool onePerLine) {
   const auto open{findOpenBracket(line, onePerLine)},
-      close{findCloseBracket(line, onePerLine)};
+      close{findCloseBracket(line)};
   const auto name{line.substr(0, onePerLine ? open - 1 : open)},
       reading{line.substr(open + 1, close - open - 1)};
   // There are some duplicates in data files which makes sense for
-- 
2.43.0


From f12a1778b4b7094a5a54018e311db35314f06e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:25 +0000
Subject: [PATCH 19/30] fix: refuse Jukugo lines without a space after the dots

---
 libs/quiz/src/JukugoData.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/quiz/src/JukugoData.cpp b/libs/quiz/src/JukugoData.cpp
index a868699..3bd74ce 100644
--- a/libs/quiz/src/JukugoData.cpp
+++ b/libs/quiz/src/JukugoData.cpp
@@ -68,6 +68,8 @@ size_t JukugoData::loadFile(const fs::path& file, KanjiGrades grade) {
         static const String Dots{"..."};
         const auto i{line.find(Dots)};
         if (i == String::npos) error("line is missing '" + Dots + "'");
+        if (i + Dots.size() < line.size() && line[i + Dots.size()] != ' ')
+          error("'" + Dots + "' should be followed by a space");
         for (std::stringstream ss{line.substr(i + Dots.size() + 1)};
              std::getline(ss, line, ' ');)
           createJukugo(line, grade, onePerLine);
-- 
2.43.0


From 4a9b42f0087c6d9a8484215cc19b0e0498499c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:16 +0000
Subject: [PATCH 20/30] fix: refuse Jukugo readings with single byte characters

---
 libs/quiz/src/Jukugo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/quiz/src/Jukugo.cpp b/libs/quiz/src/Jukugo.cpp
index ba705ef..496d00f 100644
--- a/libs/quiz/src/Jukugo.cpp
+++ b/libs/quiz/src/Jukugo.cpp
@@ -13,7 +13,7 @@ Jukugo::Jukugo(const String& name, const String& reading, KanjiGrades grade)
     if (isKanji(c)) ++count;
   if (!count) error("contains no Kanji");
   if (count < 2) error("must contain two or more Kanji");
-  for (String c; readingChars.next(c);)
+  for (String c; readingChars.next(c, false);)
     if (!isHiragana(c) && c != Kana::ProlongMark)
       error("reading must be all Hiragana");
 }
-- 
2.43.0


From 6deefa0caff3b64707df574bc5f0c7d58d501a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:22:19 +0000
Subject: [PATCH 21/30] fix: kanjiFormat must print a last line that ends with
 Kanji

---
 apps/formatMain.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/formatMain.cpp b/apps/formatMain.cpp
index 299c411..0bbedfb 100644
--- a/apps/formatMain.cpp
+++ b/apps/formatMain.cpp
@@ -40,6 +40,7 @@ void format(Args args) {
       std::cout << line << '\n';
     prevLine = line;
   }
+  if (prevLineEndedWithKanji) std::cout << prevLine << '\n';
 }
 
 int main(int argc, const char** argv) {
-- 
2.43.0


From 8cf0ee08578900d911d3ff66404fa3da10e6dd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:22:58 +0000
Subject: [PATCH 22/30] fix: kanjiFormat must be able to read a read-only file

---
 apps/formatMain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/formatMain.cpp b/apps/formatMain.cpp
index 0bbedfb..b26858b 100644
--- a/apps/formatMain.cpp
+++ b/apps/formatMain.cpp
@@ -16,7 +16,7 @@ void format(Args args) {
     throw DomainError("file not found: " + file.string());
   const std::wregex endsWithKanji{std::wstring{L"["} + KanjiRange() + L"]{1}$"},
       allKana{std::wstring{L"^["} + KanaRange() + L"]+$"};
-  std::fstream f{file};
+  std::ifstream f{file};
   String line, prevLine;
   auto prevLineEndedWithKanji{false};
   while (std::getline(f, line)) {
-- 
2.43.0


From 9da5779258ab21ff713d72fffba5d909263c152c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:02:55 +0000
Subject: [PATCH 23/30] fix: refuse a list quiz with fewer readings than
 choices (it hung)

---
 libs/quiz/src/ListQuiz.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/quiz/src/ListQuiz.cpp b/libs/quiz/src/ListQuiz.cpp
index 082321e..27de3ca 100644
--- a/libs/quiz/src/ListQuiz.cpp
+++ b/libs/quiz/src/ListQuiz.cpp
@@ -28,12 +28,18 @@ ListQuiz::ListQuiz(const QuizLauncher& launcher, Question question,
                                                        '0' + _choiceCount)} {
   assert(_answers.size() == _choiceCount); // need () ctor
   List questions;
+  ListFile::StringSet readings;
   for (auto& i : list) {
     if (!i->hasReading())
       // should never happen for any of the existing list quiz types
       throw DomainError{i->name() + " has no reading"};
     questions.emplace_back(i);
+    readings.emplace(i->reading());
   }
+  // each choice needs a different reading (see populateAnswers)
+  if (isQuizMode() && readings.size() < _choiceCount)
+    throw DomainError{"list has less than " + std::to_string(_choiceCount) +
+                      " different readings"};
   if (launcher.questionOrder() == QuestionOrder::FromEnd)
     std::reverse(questions.begin(), questions.end());
   else if (launcher.questionOrder() == QuestionOrder::Random)
-- 
2.43.0


From 8eed212a675ef886d9de24ee22838c6e05fa8325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:18:24 +0000
Subject: [PATCH 24/30] fix: group quiz answers after the 26th were checked out
 of bounds

---
 libs/quiz/src/GroupQuiz.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/quiz/src/GroupQuiz.cpp b/libs/quiz/src/GroupQuiz.cpp
index 4ee0f79..f44d1b1 100644
--- a/libs/quiz/src/GroupQuiz.cpp
+++ b/libs/quiz/src/GroupQuiz.cpp
@@ -258,7 +258,7 @@ void GroupQuiz::checkAnswers(
   size_t correctCount{};
   for (size_t count{}; auto i : _answers) {
     const auto answer{
-        static_cast<size_t>(i <= 'z' ? i - 'a' : i - 'A' + TotalLetters)};
+        static_cast<size_t>(i >= 'a' ? i - 'a' : i - 'A' + TotalLetters)};
     // always look at reading for a match and only additionally require matching
     // meanings if '_showMeanings' is true
     if (questions[count]->reading() == readings[answer]->reading() &&
-- 
2.43.0


From d322dd882e45d40f72037e5f1c3c4bd0ddc38b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:18:30 +0000
Subject: [PATCH 25/30] fix: group quiz from the beginning asked groups with
 fewer than two shown members

---
 libs/quiz/src/GroupQuiz.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libs/quiz/src/GroupQuiz.cpp b/libs/quiz/src/GroupQuiz.cpp
index f44d1b1..f6313a7 100644
--- a/libs/quiz/src/GroupQuiz.cpp
+++ b/libs/quiz/src/GroupQuiz.cpp
@@ -34,10 +34,7 @@ GroupQuiz::GroupQuiz(const QuizLauncher& launcher, Question question,
     const auto c{get("Pattern name", PatternGroupChoices, '1')};
     if (isQuit(c)) return;
     start(prepareList(list, c - '1'));
-  } else if (launcher.questionOrder() == QuestionOrder::FromBeginning &&
-             _memberType == MemberType::All)
-    start(list); // can use the original list in this case
-  else
+  } else
     start(prepareList(list));
 }
 
-- 
2.43.0


From 87152ea4bf1516d0f06eec31be027f909a6882e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:31:28 +0000
Subject: [PATCH 26/30] fix: -r and -t with just a sign or a huge number must
 give a usage error

---
 libs/quiz/src/QuizLauncher.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/quiz/src/QuizLauncher.cpp b/libs/quiz/src/QuizLauncher.cpp
index 2b26469..b5b2482 100644
--- a/libs/quiz/src/QuizLauncher.cpp
+++ b/libs/quiz/src/QuizLauncher.cpp
@@ -4,6 +4,7 @@
 #include <kt_quiz/QuizLauncher.h>
 
 #include <algorithm>
+#include <charconv>
 #include <sstream>
 
 namespace kanji_tools {
@@ -276,12 +277,12 @@ QuizLauncher::Question QuizLauncher::processProgramModeArg(const String& arg) {
         if (arg[2] == '+') offset = 3;
       }
       const auto s{arg.substr(offset)};
-      if (!std::all_of(s.begin(), s.end(), ::isdigit))
+      if (s.empty() || !std::all_of(s.begin(), s.end(), ::isdigit))
         KanjiData::usage(
             "invalid format for '" + arg.substr(0, 2) + "', use -h for help");
-      if (const auto i{std::stoul(s)};
-          i <= std::numeric_limits<Question>::max())
-        return static_cast<Question>(i);
+      if (Question i{};
+          std::from_chars(s.data(), s.data() + s.size(), i).ec == std::errc{})
+        return i;
       KanjiData::usage("value for '" + arg.substr(0, 2) + "' exceeds limit");
     }
   }
-- 
2.43.0


From d813bb9d4f033858ed5e8825132a961d8e990fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:41:58 +0000
Subject: [PATCH 27/30] fix: the order of statistics entries wasn't an order

---
 libs/stats/src/Stats.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libs/stats/src/Stats.cpp b/libs/stats/src/Stats.cpp
index dcaf834..deec26a 100644
--- a/libs/stats/src/Stats.cpp
+++ b/libs/stats/src/Stats.cpp
@@ -111,9 +111,11 @@ KanjiTypes Stats::Count::type() const {
 
 bool Stats::Count::operator<(const Count& x) const {
   return _count > x._count ||
-         (_count == x._count && frequency() < x.frequency() ||
-             (frequency() == x.frequency() && type() < x.type() ||
-                 (type() == x.type() && _name < x._name)));
+         (_count == x._count &&
+             (frequency() < x.frequency() ||
+                 (frequency() == x.frequency() &&
+                     (type() < x.type() ||
+                         (type() == x.type() && _name < x._name)))));
 }
 
 std::ostream& operator<<(std::ostream& os, const Stats::Count& c) {
-- 
2.43.0


From 5f0ff00ffa7a4ad0bdedb9196fc28ea3b794a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:42:29 +0000
Subject: [PATCH 28/30] fix: invalid UTF-8 in a line isn't Furigana removal and
 must be counted as an error

---
 libs/stats/src/Utf8Count.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/stats/src/Utf8Count.cpp b/libs/stats/src/Utf8Count.cpp
index 1bdaa28..a05c811 100644
--- a/libs/stats/src/Utf8Count.cpp
+++ b/libs/stats/src/Utf8Count.cpp
@@ -28,8 +28,11 @@ Utf8Count::Utf8Count(
 size_t Utf8Count::add(const String& s, const OptString& tag) {
   auto n{s};
   if (_find) {
-    n = toUtf8(std::regex_replace(fromUtf8ToWstring(s), *_find, _replace));
-    if (n != s) {
+    const auto before{fromUtf8ToWstring(s)};
+    // 'n' must stay the same if nothing was replaced (even if 's' has errors)
+    if (const auto after{std::regex_replace(before, *_find, _replace)};
+        after != before) {
+      n = toUtf8(after);
       ++_replacements;
       if (tag && tag != _lastReplaceTag) {
         if (_debug) *_debug << "Tag '" << *tag << "'\n";
-- 
2.43.0


From d165ee1674742d823f0645273254ba0ea8eacb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:42:35 +0000
Subject: [PATCH 29/30] fix: files that can be read but not written must be
 counted

---
 libs/stats/src/Utf8Count.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/stats/src/Utf8Count.cpp b/libs/stats/src/Utf8Count.cpp
index a05c811..2bcc393 100644
--- a/libs/stats/src/Utf8Count.cpp
+++ b/libs/stats/src/Utf8Count.cpp
@@ -122,14 +122,14 @@ size_t Utf8Count::processFile(const fs::path& file, const OptString& tag) {
   if (_find) return processFileWithRegex(file, tag);
   size_t added{};
   String line;
-  for (std::fstream f{file}; (std::getline(f, line));) added += add(line, tag);
+  for (std::ifstream f{file}; (std::getline(f, line));) added += add(line, tag);
   return added;
 }
 
 size_t Utf8Count::processFileWithRegex(
     const fs::path& file, const OptString& tag) {
   size_t added{};
-  std::fstream f{file};
+  std::ifstream f{file};
   String line, prevLine;
   for (auto prevUnclosed{false}; std::getline(f, line);
        prevUnclosed = hasUnclosedBrackets(prevLine)) {
-- 
2.43.0


From b7cec6fb8de6b5318dac9f04321ceb6e83498c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:43:42 +0000
Subject: [PATCH 30/30] fix: kanjiFormat crashed on a line of tens of thousands
 of Kana after a Kanji

---
 apps/formatMain.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/formatMain.cpp b/apps/formatMain.cpp
index b26858b..bd1f8d4 100644
--- a/apps/formatMain.cpp
+++ b/apps/formatMain.cpp
@@ -15,13 +15,15 @@ void format(Args args) {
   if (!std::filesystem::is_regular_file(file))
     throw DomainError("file not found: " + file.string());
   const std::wregex endsWithKanji{std::wstring{L"["} + KanjiRange() + L"]{1}$"},
-      allKana{std::wstring{L"^["} + KanaRange() + L"]+$"};
+      notKana{std::wstring{L"[^"} + KanaRange() + L"]"};
   std::ifstream f{file};
   String line, prevLine;
   auto prevLineEndedWithKanji{false};
   while (std::getline(f, line)) {
     if (auto wline{fromUtf8ToWstring(line)}; prevLineEndedWithKanji) {
-      if (std::regex_search(wline, allKana)) {
+      // search for one character since matching 'all Kana' makes std::regex
+      // recurse for each one (and run out of stack for very long lines)
+      if (!wline.empty() && !std::regex_search(wline, notKana)) {
         prevLineEndedWithKanji = false;
         // The previous line ended with kanji and current line is all hiragana
         // so assume the current line is furigana for the kanji at the end of
-- 
2.43.0

