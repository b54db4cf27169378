From 6121ff79a3525847ede759e7bbf710e4ab7743c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:10 +0000
Subject: [PATCH 01/90] fix: do not read past the end of a string with a
 truncated UTF-8 sequence

---
 include/Caitlyn/__Core/String/String.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index b192a9e..642d01f 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -999,7 +999,13 @@ private:
         {
             throw std::runtime_error("Invalid UTF-8 sequence");
         }
-        return CharType{BasicString(cstr, len)};
+        // Never read past the terminator: a truncated sequence is rejected by CharType
+        SizeType available = 1;
+        while (available < len && cstr[available] != '\0')
+        {
+            ++available;
+        }
+        return CharType{BasicString(cstr, available)};
     }
 
 private:
-- 
2.43.0


From a9138d72c3878e1371eeb7a28813ff3a37180661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:10 +0000
Subject: [PATCH 02/90] fix: searching a String from a position past its end
 finds nothing instead of reading out of bounds

---
 include/Caitlyn/__Core/String/String.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 642d01f..73bab14 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -391,6 +391,10 @@ public:
     // Method to find the first occurrence of a substring
     SizeType Find(const String& substr, const SizeType pos = 0) const
     {
+        if (pos > size())
+        {
+            return NPosition;
+        }
         const auto it =
             std::search(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), substr.begin(), substr.end());
         return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
@@ -442,6 +446,10 @@ public:
     template <typename Predicate>
     SizeType FindIf(Predicate pred, const SizeType pos = 0) const
     {
+        if (pos > size())
+        {
+            return NPosition;
+        }
         auto it = std::find_if(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), pred);
         return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
     }
@@ -450,6 +458,10 @@ public:
     template <typename Predicate>
     SizeType FindIfNot(Predicate pred, const SizeType pos = 0) const
     {
+        if (pos > size())
+        {
+            return NPosition;
+        }
         auto it = std::find_if_not(data_.begin() + static_cast<DifferenceType>(pos), data_.end(), pred);
         return (it != data_.end()) ? std::distance(data_.begin(), it) : NPosition;
     }
-- 
2.43.0


From c502b365fa0b771ab0bcaac989276bac771ec9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:10 +0000
Subject: [PATCH 03/90] fix: ReverseFind returns the index where the occurrence
 starts, not where it ends

---
 include/Caitlyn/__Core/String/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 73bab14..d51d9a3 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -416,7 +416,7 @@ public:
             data_.rend(),
             substr.rbegin(),
             substr.rend());
-        return (it != data_.rend()) ? size() - 1 - std::distance(data_.rbegin(), it) : NPosition;
+        return (it != data_.rend()) ? size() - std::distance(data_.rbegin(), it) - substr.size() : NPosition;
     }
 
     // Substring method
-- 
2.43.0


From 6d5e4cf1f90830489921449333f1e09fbe5d7bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:10 +0000
Subject: [PATCH 04/90] fix: a String can be appended to or inserted into
 itself

---
 include/Caitlyn/__Core/String/String.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index d51d9a3..704f7cb 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -241,7 +241,8 @@ public:
 public:
     String& operator+=(const String& str)
     {
-        data_.insert(data_.end(), str.data_.begin(), str.data_.end());
+        const DataType tail = str.data_; // str may be this string
+        data_.insert(data_.end(), tail.begin(), tail.end());
         return *this;
     }
 
@@ -515,7 +516,8 @@ public:
         {
             throw std::out_of_range("Position out of range");
         }
-        data_.insert(data_.begin() + static_cast<DifferenceType>(pos), str.data_.begin(), str.data_.end());
+        const DataType inserted = str.data_; // str may be this string
+        data_.insert(data_.begin() + static_cast<DifferenceType>(pos), inserted.begin(), inserted.end());
     }
 
     void Insert(const SizeType pos, const SizeType count, const CharType& ch)
-- 
2.43.0


From a31e4c0fcdd925922e9f22bcc2256c11b609fcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:35 +0000
Subject: [PATCH 05/90] fix: appending copies of a String's own character no
 longer reads it after reallocation

---
 include/Caitlyn/__Core/String/String.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 704f7cb..b9ef948 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -290,12 +290,7 @@ public:
 
     void Append(const SizeType count, const CharType& pattern)
     {
-        SizeType i = 0;
-        while (i < count)
-        {
-            data_.emplace_back(pattern);
-            ++i;
-        }
+        data_.insert(data_.end(), count, pattern);
     }
 
     void Clear()
-- 
2.43.0


From e2e154b19b1aef227faaac8d91447591b5ea5a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:17 +0000
Subject: [PATCH 06/90] fix: lowercasing leaves characters above U+1FEC alone

---
 include/Caitlyn/__Core/Char/Utility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Utility.h b/include/Caitlyn/__Core/Char/Utility.h
index 8e8b51a..767834e 100644
--- a/include/Caitlyn/__Core/Char/Utility.h
+++ b/include/Caitlyn/__Core/Char/Utility.h
@@ -329,9 +329,9 @@ inline CodePoint ToLowercase(const CodePoint codePoint)
     {
         return codePoint - 0x08;
     }
-    if (codePoint >= 0x1FEC)
+    if (codePoint == 0x1FEC)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x07;
     }
     // Ranges for Latin characters with diacritics
     if (codePoint >= 0x0100 && codePoint <= 0x012F)
-- 
2.43.0


From 4d1b8879e25f17273eb0efc66a5e97be75b3d32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:17 +0000
Subject: [PATCH 07/90] fix: case mapping of the Greek Extended block follows
 Unicode

---
 include/Caitlyn/__Core/Char/Utility.h | 30 +++++++++++++--------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Utility.h b/include/Caitlyn/__Core/Char/Utility.h
index 767834e..72d2fbe 100644
--- a/include/Caitlyn/__Core/Char/Utility.h
+++ b/include/Caitlyn/__Core/Char/Utility.h
@@ -167,51 +167,51 @@ inline CodePoint ToUppercase(const CodePoint codePoint)
     // Additional
     if (codePoint >= 0x1F00 && codePoint <= 0x1F07)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F10 && codePoint <= 0x1F15)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F20 && codePoint <= 0x1F27)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F30 && codePoint <= 0x1F37)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F40 && codePoint <= 0x1F45)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F60 && codePoint <= 0x1F67)
     {
-        return codePoint - 0x08;
+        return codePoint + 0x08;
     }
     if (codePoint >= 0x1F70 && codePoint <= 0x1F71)
     {
-        return codePoint + 0x56;
+        return codePoint + 0x4A;
     }
     if (codePoint >= 0x1F72 && codePoint <= 0x1F75)
     {
-        return codePoint + 0x64;
+        return codePoint + 0x56;
     }
     if (codePoint >= 0x1F76 && codePoint <= 0x1F77)
     {
-        return codePoint + 0x80;
+        return codePoint + 0x64;
     }
     if (codePoint >= 0x1F78 && codePoint <= 0x1F79)
     {
-        return codePoint + 0x7E;
+        return codePoint + 0x80;
     }
     if (codePoint >= 0x1F7A && codePoint <= 0x1F7B)
     {
-        return codePoint + 0x7C;
+        return codePoint + 0x70;
     }
     if (codePoint >= 0x1F7C && codePoint <= 0x1F7D)
     {
-        return codePoint + 0x7A;
+        return codePoint + 0x7E;
     }
     // Ranges for Latin characters with diacritics
     if (codePoint >= 0x0100 && codePoint <= 0x012F)
@@ -311,11 +311,11 @@ inline CodePoint ToLowercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x1FBA && codePoint <= 0x1FBB)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x4A;
     }
     if (codePoint >= 0x1FC8 && codePoint <= 0x1FCB)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x56;
     }
     if (codePoint >= 0x1FD8 && codePoint <= 0x1FD9)
     {
@@ -327,7 +327,7 @@ inline CodePoint ToLowercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x1FEA && codePoint <= 0x1FEB)
     {
-        return codePoint - 0x08;
+        return codePoint - 0x70;
     }
     if (codePoint == 0x1FEC)
     {
-- 
2.43.0


From 80dd45031673fc2164217661e119376d9abfd039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:17 +0000
Subject: [PATCH 08/90] fix: case mapping of U+0139..U+0148, where capitals are
 odd

---
 include/Caitlyn/__Core/Char/Utility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Char/Utility.h b/include/Caitlyn/__Core/Char/Utility.h
index 72d2fbe..f04c73e 100644
--- a/include/Caitlyn/__Core/Char/Utility.h
+++ b/include/Caitlyn/__Core/Char/Utility.h
@@ -232,7 +232,7 @@ inline CodePoint ToUppercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x0139 && codePoint <= 0x0148)
     {
-        if (codePoint % 2 == 0)
+        if (codePoint % 2 != 0)
         {
             return codePoint;
         }
@@ -352,7 +352,7 @@ inline CodePoint ToLowercase(const CodePoint codePoint)
     }
     if (codePoint >= 0x0139 && codePoint <= 0x0148)
     {
-        if (codePoint % 2 != 0)
+        if (codePoint % 2 == 0)
         {
             return codePoint;
         }
-- 
2.43.0


From 8528cae976236b945bda09e56b43eb7512d1a8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:48 +0000
Subject: [PATCH 09/90] fix: {n:spec} formats argument n, not the next
 automatic one

---
 include/Caitlyn/__Core/String/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index b9ef948..8f9fbd5 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -623,7 +623,7 @@ public:
                             if (format_spec[0] == Def::Colon)
                             {
                                 auto parsed_spec = Formatter::MakeSpacifier(format_spec);
-                                result << Formatter::Process(arguments[auto_index], parsed_spec).str();
+                                result << Formatter::Process(arguments[arg_index], parsed_spec).str();
                             }
                         }
                         else
-- 
2.43.0


From 619d6dc8bb6151c733d610307891ef09d10063d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:48 +0000
Subject: [PATCH 10/90] fix: an explicit index into an empty argument list is
 out of range

---
 include/Caitlyn/__Core/String/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 8f9fbd5..dfb0ad2 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -612,7 +612,7 @@ public:
                         {
                             throw Formatter::FormatError{"Invalid argument index"};
                         }
-                        if (arg_index > arguments.size() - 1)
+                        if (arg_index >= arguments.size())
                         {
                             throw Formatter::FormatError{"Argument index out of range"};
                         }
-- 
2.43.0


From 32dbd98fc42440c9b42ff6e241685a720eed7e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:48 +0000
Subject: [PATCH 11/90] fix: {:spec} takes the next argument, and {} beyond the
 last argument is an error

---
 include/Caitlyn/__Core/String/String.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index dfb0ad2..ea54615 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -634,13 +634,18 @@ public:
                     else if (spec.NotEmpty() && spec[spec_begin] == Def::Colon)
                     {
                         auto parsed_spec = Formatter::MakeSpacifier(spec);
+                        arg_index = arguments.size() == 1 ? 0 : auto_index++;
+                        if (arg_index >= arguments.size())
+                        {
+                            throw Formatter::FormatError{"Argument index out of range"};
+                        }
                         result << Formatter::Process(arguments[arg_index], parsed_spec).str();
                     }
                     else if (arguments.size() == 1)
                     {
                         result << arguments[0].str();
                     }
-                    else if (arguments.size() > 1)
+                    else if (auto_index < arguments.size())
                     {
                         result << arguments[auto_index++].str();
                     }
-- 
2.43.0


From 899f708cfb83f0e7aa1b78a815f704e1b8df0f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:48 +0000
Subject: [PATCH 12/90] fix: do not read past the end of an empty format
 specification

---
 include/Caitlyn/__Core/String/String.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index ea54615..5539e51 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -800,6 +800,10 @@ private:
                     ++pos;
                 }
             }
+            else if (pos >= config.size())
+            {
+                return;
+            }
             else if (config[pos] == Def::LessThanSign)
             {
                 spec.align = Alignment::Left;
-- 
2.43.0


From 4cfb452a514b0ed43ba107d451d2be6a23f99d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:48 +0000
Subject: [PATCH 13/90] fix: {:f} without a precision keeps the fraction, and a
 precision of 0 leaves no trailing point

---
 include/Caitlyn/__Core/String/String.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 5539e51..745bce7 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -930,12 +930,17 @@ private:
             std::ostringstream oss;
             const auto dot_index = value.Find(Def::FullStop);
 
-            if (dot_index != NPosition)
+            if (spec.precision < 0)
             {
-                oss << value.Substring(0, dot_index + 1).str();
+                oss << value.str();
+            }
+            else if (dot_index != NPosition)
+            {
+                oss << value.Substring(0, dot_index).str();
 
                 if (spec.precision > 0)
                 {
+                    oss << Def::FullStop;
                     const SizeType limit = dot_index + 1 + spec.precision;
                     SizeType index = dot_index + 1;
 
-- 
2.43.0


From 3ad03a0f8efea0c70c5180ed0f83ddc9463af76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:23 +0000
Subject: [PATCH 14/90] fix: appending to a copied StringBuilder extends the
 text instead of overwriting it

---
 include/Caitlyn/__Core/String/StringBuilder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/StringBuilder.h b/include/Caitlyn/__Core/String/StringBuilder.h
index abd42e6..b2b5ec9 100644
--- a/include/Caitlyn/__Core/String/StringBuilder.h
+++ b/include/Caitlyn/__Core/String/StringBuilder.h
@@ -51,7 +51,7 @@ public:
         data_ << String::Format(str, std::forward<Args>(args)...);
     }
 
-    StringBuilder(const StringBuilder& other) : data_{other.data_.str()}
+    StringBuilder(const StringBuilder& other) : data_{other.data_.str(), std::ios_base::out | std::ios_base::ate}
     {
     }
 
-- 
2.43.0


From 53092a32335d800aec6559f78a8dfdcb17104b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:57 +0000
Subject: [PATCH 15/90] fix: ReadChar on an empty line returns an empty
 character instead of reading out of bounds

---
 include/Caitlyn/__Core/IO/Stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/IO/Stream.h b/include/Caitlyn/__Core/IO/Stream.h
index 7db32f4..be90dca 100644
--- a/include/Caitlyn/__Core/IO/Stream.h
+++ b/include/Caitlyn/__Core/IO/Stream.h
@@ -49,7 +49,8 @@ public:
 
     static Char ReadChar(const String& message = String::Empty())
     {
-        return ReadLine(message)[0];
+        const String line = ReadLine(message);
+        return line.NotEmpty() ? line[0] : Char{};
     }
 
     template <typename... Args>
-- 
2.43.0


From 0afabcc917d8aca0eef73024e807fd90ae232161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 16/90] fix: File::Read does not read past its buffer, and
 reads an empty file

---
 include/Caitlyn/__Core/File/File.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 21c18a9..ba45c04 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -128,7 +128,7 @@ public:
         std::vector<char> buffer(size);
         if (file_.read(buffer.data(), size))
         {
-            return buffer.data();
+            return std::basic_string<char>(buffer.begin(), buffer.end());
         }
         return {};
     }
-- 
2.43.0


From 18283923598cb1f00a9658687e8c49f81ed812c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 17/90] fix: File::Read returns the content after the end of
 the file was reached

---
 include/Caitlyn/__Core/File/File.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index ba45c04..d431dff 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -121,6 +121,7 @@ public:
         {
             Open();
         }
+        file_.clear();
         file_.seekg(0, std::ios::end);
         const std::streamsize size = file_.tellg();
         file_.seekg(0, std::ios::beg);
-- 
2.43.0


From fa657dc5659f1ce85b41b399be97cfc6e4cb260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 18/90] fix: the position after reading the last line is the
 end of the file

---
 include/Caitlyn/__Core/File/File.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index d431dff..3858119 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -164,8 +164,9 @@ public:
         }
         if (file_.eof())
         {
-            currentPosition_ = file_.tellg();
-            return result.str();
+            const std::basic_string<char> line = result.str();
+            currentPosition_ += static_cast<std::streamoff>(line.size());
+            return line;
         }
         if (file_.fail() || file_.bad())
         {
-- 
2.43.0


From 8c63bedbb9a622c40528e2f6a39a93fe511553e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 19/90] fix: writing to a File after its end was reached is not
 lost

---
 include/Caitlyn/__Core/File/File.h | 129 ++++++++---------------------
 1 file changed, 33 insertions(+), 96 deletions(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 3858119..30c0b1d 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -177,20 +177,14 @@ public:
 
     void Write(const char* data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_ << data;
         file_.flush();
     }
 
     void Write(const String& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_ << data;
         file_.flush();
     }
@@ -198,10 +192,7 @@ public:
     template <typename T>
     Required<HasToString<T>()> Write(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_ << data.to_string();
         file_.flush();
     }
@@ -209,10 +200,7 @@ public:
     template <typename T>
     Required<HasStr<T>()> Write(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_ << data.str();
         file_.flush();
     }
@@ -220,10 +208,7 @@ public:
     template <typename T>
     Required<ConvertibleToString<T>()> Write(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_ << data.ToString();
         file_.flush();
     }
@@ -231,30 +216,21 @@ public:
     template <typename... Args>
     void Write(const String& str, Args&&... args)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_ << String::Format(str, std::forward<Args>(args)...);
         file_.flush();
     }
 
     void WriteLine(const char* data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_ << data << Def::LineFeed;
         file_.flush();
     }
 
     void WriteLine(const String& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_ << data << Def::LineFeed;
         file_.flush();
     }
@@ -262,10 +238,7 @@ public:
     template <typename T>
     Required<HasToString<T>()> WriteLine(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_ << data.to_string() << Def::LineFeed;
         file_.flush();
     }
@@ -273,10 +246,7 @@ public:
     template <typename T>
     Required<HasStr<T>()> WriteLine(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_ << data.str() << Def::LineFeed;
         file_.flush();
     }
@@ -284,10 +254,7 @@ public:
     template <typename T>
     Required<ConvertibleToString<T>()> WriteLine(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_ << data.ToString() << Def::LineFeed;
         file_.flush();
     }
@@ -295,20 +262,14 @@ public:
     template <typename... Args>
     void WriteLine(const String& str, Args&&... args)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_ << String::Format(str, std::forward<Args>(args)...) << Def::LineFeed;
         file_.flush();
     }
 
     void Append(const char* data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << data;
         file_.flush();
@@ -316,10 +277,7 @@ public:
 
     void Append(const String& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << data;
         file_.flush();
@@ -328,10 +286,7 @@ public:
     template <typename T>
     Required<HasToString<T>()> Append(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.to_string();
         file_.flush();
@@ -340,10 +295,7 @@ public:
     template <typename T>
     Required<HasStr<T>()> Append(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.str();
         file_.flush();
@@ -352,10 +304,7 @@ public:
     template <typename T>
     Required<ConvertibleToString<T>()> Append(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.ToString();
         file_.flush();
@@ -364,10 +313,7 @@ public:
     template <typename... Args>
     void Append(const String& str, Args&&... args)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << String::Format(str, std::forward<Args>(args)...);
         file_.flush();
@@ -375,10 +321,7 @@ public:
 
     void AppendLine(const char* data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << data << Def::LineFeed;
         file_.flush();
@@ -386,10 +329,7 @@ public:
 
     void AppendLine(const String& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << data << Def::LineFeed;
         file_.flush();
@@ -398,10 +338,7 @@ public:
     template <typename T>
     Required<HasToString<T>()> AppendLine(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.to_string() << Def::LineFeed;
         file_.flush();
@@ -410,10 +347,7 @@ public:
     template <typename T>
     Required<HasStr<T>()> AppendLine(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.str() << Def::LineFeed;
         file_.flush();
@@ -422,10 +356,7 @@ public:
     template <typename T>
     Required<ConvertibleToString<T>()> AppendLine(const T& data)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.ToString() << Def::LineFeed;
         file_.flush();
@@ -434,16 +365,22 @@ public:
     template <typename... Args>
     void AppendLine(const String& str, Args&&... args)
     {
-        if (!file_.is_open())
-        {
-            Open();
-        }
+        PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << String::Format(str, std::forward<Args>(args)...) << Def::LineFeed;
         file_.flush();
     }
 
 private:
+    void PrepareToWrite()
+    {
+        if (!file_.is_open())
+        {
+            Open();
+        }
+        file_.clear(); // the end of the file may have been reached while reading
+    }
+
     std::basic_string<char> GetFilename() const
     {
         return filename_.str();
-- 
2.43.0


From 36d55c0476448e2acb47d1f61ffff7ff87fb7ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 20/90] fix: erasing a File resets its reading position

---
 include/Caitlyn/__Core/File/File.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 30c0b1d..c09af27 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -84,6 +84,7 @@ public:
             throw std::ios_base::failure{"Failed to open file for clearing."};
         }
         clearFile.close();
+        currentPosition_ = 0;
         Open();
     }
 
-- 
2.43.0


From 0abaca9b202135d969a6b1bfc9594e2c207bca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 21/90] fix: opening a File that is already open does not put
 it into a failed state

---
 include/Caitlyn/__Core/File/File.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index c09af27..9c763f8 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -60,6 +60,10 @@ public:
         {
             throw std::ios_base::failure{"Filename is empty"};
         }
+        if (file_.is_open())
+        {
+            return;
+        }
         file_.open(GetFilename(), std::ios::in | std::ios::out | std::ios::app | std::ios::binary);
         if (!file_.is_open())
         {
-- 
2.43.0


From 7af2a5563da7a5bd72303c3033dd505b3e7b6cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:03 +0000
Subject: [PATCH 22/90] fix: BigInteger addition, subtraction, remainder and
 ordering of negative numbers

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 28 +++++++++-----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index 6daacbe..30c7a0f 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -142,10 +142,12 @@ public:
 
         if (abs_this.GreaterThan(abs_other))
         {
-            return abs_this.Subtract(abs_other);
+            BigInteger result = abs_this.Subtract(abs_other);
+            result.is_negative_ = is_negative_;
+            return result;
         }
         BigInteger result = abs_other.Subtract(abs_this);
-        result.is_negative_ = other.is_negative_;
+        result.is_negative_ = other.is_negative_ && !result.digits_.empty();
         return result;
     }
 
@@ -153,17 +155,18 @@ public:
     {
         if (this->is_negative_ != other.is_negative_)
         {
-            BigInteger result = Add(other);
-            result.is_negative_ = this->is_negative_;
-            return result;
+            BigInteger negated = other;
+            negated.is_negative_ = is_negative_;
+            return Add(negated);
         }
         if (Equal(other))
         {
             return BigInteger{"0"};
         }
         const bool result_is_negative = LessThan(other);
-        const BigInteger& larger = result_is_negative ? other : *this;
-        const BigInteger& smaller = result_is_negative ? *this : other;
+        const bool other_is_larger = result_is_negative != is_negative_;
+        const BigInteger& larger = other_is_larger ? other : *this;
+        const BigInteger& smaller = other_is_larger ? *this : other;
 
         BigInteger result;
         result.is_negative_ = result_is_negative;
@@ -258,12 +261,7 @@ public:
 
     BigInteger Modulo(const BigInteger& other) const
     {
-        BigInteger result = Subtract(Divide(other).Multiply(other));
-        if (result.is_negative_ != is_negative_)
-        {
-            result.is_negative_ = is_negative_;
-        }
-        return result;
+        return Subtract(Divide(other).Multiply(other));
     }
 
 public:
@@ -353,13 +351,13 @@ public:
         }
         if (digits_.size() != other.digits_.size())
         {
-            return digits_.size() < other.digits_.size();
+            return (digits_.size() < other.digits_.size()) != is_negative_;
         }
         for (SizeType i = digits_.size(); i > 0; --i)
         {
             if (digits_[i - 1] != other.digits_[i - 1])
             {
-                return digits_[i - 1] < other.digits_[i - 1];
+                return (digits_[i - 1] < other.digits_[i - 1]) != is_negative_;
             }
         }
         return false;
-- 
2.43.0


From 3c054390ef22a9c56cdd17e98a946696735c1843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:16 +0000
Subject: [PATCH 23/90] fix: BigInteger rejects a lone sign and non-ASCII
 digits

---
 include/Caitlyn/__Numeric/Types/BigInteger.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigInteger.h b/include/Caitlyn/__Numeric/Types/BigInteger.h
index 30c7a0f..4e62059 100644
--- a/include/Caitlyn/__Numeric/Types/BigInteger.h
+++ b/include/Caitlyn/__Numeric/Types/BigInteger.h
@@ -68,9 +68,13 @@ public:
                 start = 1;
             }
         }
+        if (start == number.size())
+        {
+            throw std::invalid_argument{"Invalid number format"};
+        }
         for (SizeType i = start; i < number.size(); ++i)
         {
-            if (!IsDigit(number[i].GetCodePoint()))
+            if (number[i].GetCodePoint() < 0x30 || number[i].GetCodePoint() > 0x39)
             {
                 throw std::invalid_argument{"Invalid number format"};
             }
-- 
2.43.0


From 747c3f0da20b1b7433140ce1b025f89de45b2f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 24/90] fix: BigFloat keeps its sign and the leading zeros of
 its fraction, and computes exactly

---
 include/Caitlyn/__Numeric/Types/BigFloat.h | 242 +++++++--------------
 1 file changed, 73 insertions(+), 169 deletions(-)

diff --git a/include/Caitlyn/__Numeric/Types/BigFloat.h b/include/Caitlyn/__Numeric/Types/BigFloat.h
index 0d9027a..217dba4 100644
--- a/include/Caitlyn/__Numeric/Types/BigFloat.h
+++ b/include/Caitlyn/__Numeric/Types/BigFloat.h
@@ -44,27 +44,33 @@ public:
         {
             throw std::invalid_argument{"Invalid number format"};
         }
-        size_t point_pos = number.Find(Def::FullStop);
-        if (point_pos == String::NPosition)
+        const size_t point_pos = number.Find(Def::FullStop);
+        String integer_str = number;
+        String fractional_str;
+        if (point_pos != String::NPosition)
         {
-            integerPart_ = BigInteger{number};
-        }
-        else
-        {
-            String integer_str = number.Substring(0, point_pos);
-            String fractional_str = number.Substring(point_pos + 1);
-
-            if (integer_str.IsEmpty())
-            {
-                integer_str = Def::DigitZero;
-            }
-            if (fractional_str.IsEmpty())
+            integer_str = number.Substring(0, point_pos);
+            fractional_str = number.Substring(point_pos + 1);
+            if (integer_str.IsEmpty() || integer_str == "-" || integer_str == "+")
             {
-                fractional_str = Def::DigitZero;
+                integer_str += Def::DigitZero;
             }
-            integerPart_ = BigInteger{integer_str};
+        }
+        if (!fractional_str.IsEmpty() && (fractional_str[0] == '-' || fractional_str[0] == '+'))
+        {
+            throw std::invalid_argument{"Invalid number format"};
+        }
+        while (!fractional_str.IsEmpty() && fractional_str[fractional_str.size() - 1] == '0')
+        {
+            fractional_str = fractional_str.Substring(0, fractional_str.size() - 1);
+        }
+        integerPart_ = BigInteger{integer_str}.Abs();
+        if (!fractional_str.IsEmpty())
+        {
             fractionalPart_ = BigInteger{fractional_str};
         }
+        scale_ = fractional_str.size();
+        isNegative_ = number[0] == '-' && Size() != 0;
     }
 
     BigFloat(const BigFloat& other) = default;
@@ -72,8 +78,10 @@ public:
     BigFloat(BigFloat&& other) noexcept
         : integerPart_(std::move(other.integerPart_)),
           fractionalPart_(std::move(other.fractionalPart_)),
+          scale_(other.scale_),
           isNegative_(other.isNegative_)
     {
+        other.scale_ = 0;
         other.isNegative_ = false;
     }
 
@@ -84,6 +92,7 @@ public:
         {
             integerPart_ = other.integerPart_;
             fractionalPart_ = other.fractionalPart_;
+            scale_ = other.scale_;
             isNegative_ = other.isNegative_;
         }
         return *this;
@@ -95,6 +104,8 @@ public:
         {
             integerPart_ = std::move(other.integerPart_);
             fractionalPart_ = std::move(other.fractionalPart_);
+            scale_ = other.scale_;
+            other.scale_ = 0;
             isNegative_ = other.isNegative_;
             other.isNegative_ = false;
         }
@@ -104,132 +115,30 @@ public:
 public:
     BigFloat Add(const BigFloat& other) const
     {
-        BigInteger this_fractional = fractionalPart_;
-        BigInteger other_fractional = other.fractionalPart_;
-
-        // Normalize fractional part lengths by adding leading zeros
-        while (this_fractional.Size() < other_fractional.Size())
-        {
-            this_fractional = this_fractional.Multiply(BigInteger{"10"});
-        }
-        while (other_fractional.Size() < this_fractional.Size())
-        {
-            other_fractional = other_fractional.Multiply(BigInteger{"10"});
-        }
-        BigInteger fractional_result = this_fractional.Add(other_fractional);
-        bool carry = false;
-
-        // If the result of fractional addition exceeds the fractional limit, carry
-        // over to integer part
-        if (fractional_result.Size() > this_fractional.Size())
-        {
-            carry = true;
-            fractional_result = fractional_result.Subtract(BigInteger{"10"}.Multiply(this_fractional.Size()));
-        }
-        BigInteger integer_result = integerPart_.Add(other.integerPart_);
-        if (carry)
-        {
-            integer_result = integer_result.Add(BigInteger{Def::DigitOne});
-        }
-        return BigFloat{integer_result.ToString() + Def::FullStop + fractional_result.ToString()};
+        const SizeType scale = std::max(scale_, other.scale_);
+        return FromUnscaled(Unscaled(scale).Add(other.Unscaled(scale)), scale);
     }
 
     BigFloat Subtract(const BigFloat& other) const
     {
-        BigInteger this_fractional = fractionalPart_;
-        BigInteger other_fractional = other.fractionalPart_;
-
-        // Normalize fractional part lengths by adding leading zeros
-        while (this_fractional.Size() < other_fractional.Size())
-        {
-            this_fractional = this_fractional.Multiply(BigInteger{"10"});
-        }
-        while (other_fractional.Size() < this_fractional.Size())
-        {
-            other_fractional = other_fractional.Multiply(BigInteger{"10"});
-        }
-
-        bool borrow = false;
-        if (this_fractional.LessThan(other_fractional))
-        {
-            borrow = true;
-            this_fractional = this_fractional.Add(BigInteger{"10"}.Multiply(this_fractional.Size()));
-        }
-        const BigInteger fractional_result = this_fractional.Subtract(other_fractional);
-
-        BigInteger integer_result = integerPart_.Subtract(other.integerPart_);
-        if (borrow)
-        {
-            integer_result = integer_result.Subtract(BigInteger{"1"});
-        }
-        return BigFloat{integer_result.ToString() + "." + fractional_result.ToString()};
+        const SizeType scale = std::max(scale_, other.scale_);
+        return FromUnscaled(Unscaled(scale).Subtract(other.Unscaled(scale)), scale);
     }
 
     BigFloat Multiply(const BigFloat& other) const
     {
-        // Convert both numbers to their full string representation without the
-        // decimal point
-        const String this_full = integerPart_.ToString() + fractionalPart_.ToString();
-        const String other_full = other.integerPart_.ToString() + other.fractionalPart_.ToString();
-
-        // Count the number of digits after the decimal point in both numbers
-        const size_t this_frac_size = fractionalPart_.Size();
-        const size_t other_frac_size = other.fractionalPart_.Size();
-
-        // Perform the multiplication on the full strings
-        const BigInteger result_full = BigInteger{this_full}.Multiply(BigInteger{other_full});
-
-        // The total number of fractional digits in the result
-        const size_t total_frac_size = this_frac_size + other_frac_size;
-
-        // Convert the result back to a string
-        String result_str = result_full.ToString();
-
-        // Insert the decimal point at the correct position
-        if (total_frac_size >= result_str.size())
-        {
-            result_str.Insert(0, String(total_frac_size - result_str.size() + 1, '0'));
-        }
-        result_str.Insert(result_str.size() - total_frac_size, 1, '.');
-
-        // Construct and return the BigFloat result
-        return BigFloat{result_str};
+        return FromUnscaled(Unscaled(scale_).Multiply(other.Unscaled(other.scale_)), scale_ + other.scale_);
     }
 
+    // The quotient is truncated to the scale of the more precise operand
     BigFloat Divide(const BigFloat& other) const
     {
         if (other.Equal(BigFloat{"0"}))
         {
             throw std::invalid_argument{"Division by zero"};
         }
-        // Convert both numbers to their full string representation without the
-        // decimal point
-        const String this_full = integerPart_.ToString() + fractionalPart_.ToString();
-
-        const String other_full = other.integerPart_.ToString() + other.fractionalPart_.ToString();
-
-        // Count the number of digits after the decimal point in both numbers
-        const size_t this_frac_size = fractionalPart_.Size();
-        const size_t other_frac_size = other.fractionalPart_.Size();
-
-        // Perform the division on the full strings
-        const BigInteger result_full = BigInteger{this_full}.Divide(BigInteger{other_full});
-
-        // The total number of fractional digits in the result
-        const size_t total_frac_size = this_frac_size - other_frac_size;
-
-        // Convert the result back to a string
-        String result_str = result_full.ToString();
-
-        // Insert the decimal point at the correct position
-        if (total_frac_size >= result_str.size())
-        {
-            result_str.Insert(0, String(total_frac_size - result_str.size() + 1, '0'));
-        }
-        result_str.Insert(result_str.size() - total_frac_size, 1, '.');
-
-        // Construct and return the BigFloat result
-        return BigFloat{result_str};
+        const SizeType scale = std::max(scale_, other.scale_);
+        return FromUnscaled(Unscaled(scale).Multiply(PowerOfTen(scale)).Divide(other.Unscaled(scale)), scale);
     }
 
 public:
@@ -272,32 +181,8 @@ public:
         {
             throw std::invalid_argument{"Square root of negative number"};
         }
-        if (this->Equal(BigFloat{"0"}) || this->Equal(BigFloat{"1"}))
-        {
-            return *this;
-        }
-        BigFloat low{"1"};
-        BigFloat high = *this;
-        BigFloat squared{};
-
-        while (low.LessThan(high) || low.Equal(high))
-        {
-            BigFloat mid = low.Add(high).Divide(BigFloat{"2"});
-            squared = mid.Sqr();
-            if (squared.Equal(*this))
-            {
-                return mid;
-            }
-            if (squared.LessThan(*this))
-            {
-                low = mid.Add(BigFloat{"1"});
-            }
-            else
-            {
-                high = mid.Subtract(BigFloat{"1"});
-            }
-        }
-        return high;
+        // The root is truncated to the scale of the operand
+        return FromUnscaled(Unscaled(scale_).Multiply(PowerOfTen(scale_)).Sqrt(), scale_);
     }
 
 public:
@@ -309,24 +194,13 @@ public:
     bool Equal(const BigFloat& other) const
     {
         return integerPart_.Equal(other.integerPart_) && fractionalPart_.Equal(other.fractionalPart_) &&
-               isNegative_ == other.isNegative_;
+               scale_ == other.scale_ && isNegative_ == other.isNegative_;
     }
 
     bool LessThan(const BigFloat& other) const
     {
-        if (isNegative_ != other.isNegative_)
-        {
-            return isNegative_;
-        }
-        if (integerPart_.LessThan(other.integerPart_))
-        {
-            return true;
-        }
-        if (integerPart_.GreaterThan(other.integerPart_))
-        {
-            return false;
-        }
-        return fractionalPart_.LessThan(other.fractionalPart_);
+        const SizeType scale = std::max(scale_, other.scale_);
+        return Unscaled(scale).LessThan(other.Unscaled(scale));
     }
 
     bool GreaterThan(const BigFloat& other) const
@@ -336,15 +210,44 @@ public:
 
     String ToString() const
     {
-        String result = integerPart_.ToString();
-        if (!fractionalPart_.ToString().IsEmpty() && fractionalPart_.ToString() != "0")
+        String result = isNegative_ ? "-" : "";
+        result += integerPart_.ToString();
+        if (scale_ != 0)
         {
+            const String fractional_str = fractionalPart_.ToString();
             result.PushBack('.');
-            result += fractionalPart_.ToString();
+            result += String(scale_ - fractional_str.size(), '0');
+            result += fractional_str;
         }
         return result;
     }
 
+private:
+    static BigInteger PowerOfTen(const SizeType exponent)
+    {
+        return BigInteger{String("1") + String(exponent, '0')};
+    }
+
+    // The number multiplied by 10 to the power of scale, which is at least scale_
+    BigInteger Unscaled(const SizeType scale) const
+    {
+        const BigInteger result = integerPart_.Multiply(PowerOfTen(scale)).Add(
+            fractionalPart_.Multiply(PowerOfTen(scale - scale_)));
+        return isNegative_ ? BigInteger{}.Subtract(result) : result;
+    }
+
+    static BigFloat FromUnscaled(const BigInteger& value, const SizeType scale)
+    {
+        String digits = value.Abs().ToString();
+        if (digits.size() <= scale)
+        {
+            digits = String(scale - digits.size() + 1, '0') + digits;
+        }
+        const SizeType point_pos = digits.size() - scale;
+        const String sign = value.LessThan(BigInteger{}) ? "-" : "";
+        return BigFloat{sign + digits.Substring(0, point_pos) + "." + digits.Substring(point_pos)};
+    }
+
 private:
     void RemoveLeadingZeros()
     {
@@ -355,6 +258,7 @@ private:
 private:
     BigInteger integerPart_;
     BigInteger fractionalPart_;
+    SizeType scale_ = 0; // number of digits after the decimal point
     SignFlag isNegative_ = false;
 };
 
-- 
2.43.0


From 7cfade5632091f1150e2f04c5b902bf932210a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:39 +0000
Subject: [PATCH 25/90] fix: Expected::UnwrapOrDefault calls a function that
 exists

---
 include/Caitlyn/__Core/Error/Expected.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index a37d5cd..bc4658f 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -219,13 +219,13 @@ public:
 
     const ValueType& UnwrapOrDefault() const
     {
-        static ValueType default_value{};
-        return unwrap_or(default_value);
+        static const ValueType default_value{};
+        return UnwrapOrDefault(default_value);
     }
 
     const ValueType& UnwrapOrDefault(const ValueType& default_value) const
     {
-        return unwrap_or(default_value);
+        return hasValue_ ? data_.value : default_value;
     }
 
     const ValueType& Expect(const String& message) const
-- 
2.43.0


From 56945e12cc36d810477acdee34b9e44a235e7d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:39 +0000
Subject: [PATCH 26/90] fix: Expected::Filter compiles, and keeps an existing
 error

---
 include/Caitlyn/__Core/Error/Expected.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index bc4658f..1de821a 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -250,11 +250,11 @@ public:
     template <typename Func>
     auto Filter(Func func) const -> Expected
     {
-        if (hasValue_ && func(data_.value))
+        if (!hasValue_ || func(data_.value))
         {
             return *this;
         }
-        return result_t(Unexpected<ErrorType>{});
+        return Expected{Unexpected<ErrorType>{ErrorType{}}};
     }
 
     template <typename U, typename Func>
-- 
2.43.0


From 52c3e31ea5e2d6dd036e024c6ccd74276ede5adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:39 +0000
Subject: [PATCH 27/90] fix: Expected::MapError can change the error type

---
 include/Caitlyn/__Core/Error/Expected.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index 1de821a..0c1dd31 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -174,7 +174,7 @@ public:
         {
             return Expected<ValueType, result_error_type>(Unexpected<result_error_type>(func(data_.error.Get())));
         }
-        return *this;
+        return Expected<ValueType, result_error_type>(data_.value);
     }
 
     template <typename Func>
-- 
2.43.0


From bdd4b141054d09d5d3bd8c5213ce870818e9f2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:39 +0000
Subject: [PATCH 28/90] fix: an Expected whose assignment throws does not
 destroy its content twice

---
 include/Caitlyn/__Core/Error/Expected.h | 26 ++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/Caitlyn/__Core/Error/Expected.h b/include/Caitlyn/__Core/Error/Expected.h
index 0c1dd31..afa3746 100644
--- a/include/Caitlyn/__Core/Error/Expected.h
+++ b/include/Caitlyn/__Core/Error/Expected.h
@@ -71,16 +71,7 @@ public:
     {
         if (this != &other)
         {
-            DestroyUnion();
-            hasValue_ = other.hasValue_;
-            if (hasValue_)
-            {
-                new (&data_.value) ValueType{other.data_.value};
-            }
-            else
-            {
-                new (&data_.error) Unexpected<ErrorType>{other.data_.error};
-            }
+            return *this = Expected{other};
         }
         return *this;
     }
@@ -99,11 +90,15 @@ public:
     }
 
     Expected& operator=(Expected&& other)
-        noexcept(NothrowMoveAssignable<ValueType>() && NothrowMoveAssignable<ErrorType>())
+        noexcept(NothrowMoveConstructible<ValueType>() && NothrowMoveConstructible<ErrorType>())
     {
         if (this != &other)
         {
-            DestroyUnion();
+            if (!isEmpty_)
+            {
+                DestroyUnion();
+            }
+            isEmpty_ = true; // until the new content was constructed, which may throw
             hasValue_ = other.hasValue_;
             if (hasValue_)
             {
@@ -113,13 +108,17 @@ public:
             {
                 new (&data_.error) Unexpected<ErrorType>{std::move(other.data_.error)};
             }
+            isEmpty_ = false;
         }
         return *this;
     }
 
     ~Expected()
     {
-        DestroyUnion();
+        if (!isEmpty_)
+        {
+            DestroyUnion();
+        }
     }
 
     explicit operator bool() const noexcept
@@ -367,6 +366,7 @@ private:
     } data_;
 
     bool hasValue_;
+    bool isEmpty_ = false; // an assignment failed after the previous content was destroyed
 };
 
 template <typename T, typename E>
-- 
2.43.0


From 946f06bb2ffbb65ecc9462ebf572fbb289eebb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:34 +0000
Subject: [PATCH 29/90] fix: SharedPtr destroys its object when the last owner
 goes

---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index e7160ec..024e47e 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -152,7 +152,7 @@ public:
 private:
     void Release() const
     {
-        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_relaxed) == 0)
+        if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_acq_rel) == 1)
         {
             delete data_;
             delete ref_count_;
-- 
2.43.0


From 2bc0466c42f95207ad8ad9e482ab19bb8743b161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:34 +0000
Subject: [PATCH 30/90] fix: copying an empty SharedPtr does not dereference
 null

---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index 024e47e..dcf0363 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -43,7 +43,10 @@ public:
 
     SharedPtr(const SharedPtr& other) : data_{other.data_}, ref_count_{other.ref_count_}
     {
-        ref_count_->fetch_add(1, std::memory_order_relaxed);
+        if (ref_count_)
+        {
+            ref_count_->fetch_add(1, std::memory_order_relaxed);
+        }
     }
 
     SharedPtr(SharedPtr&& other) noexcept : data_{other.data_}, ref_count_{other.ref_count_}
-- 
2.43.0


From 31549a08cfd704dcb9da931cfc3d39e77ae31e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:34 +0000
Subject: [PATCH 31/90] fix: assigning a raw pointer to a SharedPtr compiles

---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index dcf0363..e532c95 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -63,7 +63,7 @@ public:
 public:
     SharedPtr& operator=(Pointer data)
     {
-        reset(data);
+        Reset(data);
         return *this;
     }
 
-- 
2.43.0


From d54dadc518cf491fbdc7876b4a38873db3b9859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:34 +0000
Subject: [PATCH 32/90] fix: assigning to a smart pointer from a part of the
 object it owns

---
 include/Caitlyn/__Core/Memory/Types/SharedPointer.h | 5 +++--
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index e532c95..953b247 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -20,6 +20,7 @@
 
 #include <atomic>
 #include <stdexcept>
+#include <utility>
 
 #include "Caitlyn/__Base.h"
 
@@ -71,7 +72,7 @@ public:
     {
         if (this != &other)
         {
-            Release();
+            const SharedPtr previous{std::move(*this)}; // may own the object that contains other
             data_ = other.data_;
             ref_count_ = other.ref_count_;
             if (ref_count_)
@@ -86,7 +87,7 @@ public:
     {
         if (this != &other)
         {
-            Release();
+            const SharedPtr previous{std::move(*this)}; // may own the object that contains other
             data_ = other.data_;
             ref_count_ = other.ref_count_;
             other.data_ = nullptr;
diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index ba2d065..cb3483f 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -61,9 +61,10 @@ public:
     {
         if (this != &other)
         {
-            delete data_;
+            const Pointer previous = data_; // may own the object that contains other
             data_ = other.data_;
             other.data_ = nullptr;
+            delete previous;
         }
         return *this;
     }
-- 
2.43.0


From 2840a948da93a6ba7ea734a68ca924aac7e5ef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:34 +0000
Subject: [PATCH 33/90] fix: UniquePtr::Release and assignment of a raw pointer
 compile

---
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index cb3483f..5589777 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -53,7 +53,7 @@ public:
 public:
     UniquePtr& operator=(Pointer data)
     {
-        reset(data);
+        Reset(data);
         return *this;
     }
 
@@ -127,7 +127,7 @@ public:
 
     Pointer Release()
     {
-        ConstPointer tmp = data_;
+        const Pointer tmp = data_;
         data_ = nullptr;
         return tmp;
     }
-- 
2.43.0


From f93a1d61319d7f4f530a762ad001468199b17341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:51 +0000
Subject: [PATCH 34/90] fix: WeakPtr does not keep the object alive

---
 .../__Core/Memory/Types/SharedPointer.h       | 40 ++++++++++++-
 .../Caitlyn/__Core/Memory/Types/WeakPointer.h | 59 +++++++++++++------
 2 files changed, 80 insertions(+), 19 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index 953b247..04c2aef 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -26,14 +26,28 @@
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 
+template <typename T>
+class WeakPtr;
+
 template <typename T>
 class SharedPtr
 {
+    friend class WeakPtr<T>;
+
 public:
     using ValueType = T;
     using Pointer = T*;
     using Reference = T&;
-    using Counter = std::atomic_size_t;
+
+    // Counts the owners; it is kept as long as there are owners or weak pointers
+    struct Counter : std::atomic_size_t
+    {
+        explicit Counter(const size_t owners) : std::atomic_size_t(owners)
+        {
+        }
+
+        std::atomic_size_t weak_count{1}; // the weak pointers, plus one for all owners together
+    };
 
 public:
     SharedPtr() = default;
@@ -159,7 +173,29 @@ private:
         if (ref_count_ && ref_count_->fetch_sub(1, std::memory_order_acq_rel) == 1)
         {
             delete data_;
-            delete ref_count_;
+            ReleaseCounter(ref_count_);
+        }
+    }
+
+    static void ReleaseCounter(Counter* counter)
+    {
+        if (counter->weak_count.fetch_sub(1, std::memory_order_acq_rel) == 1)
+        {
+            delete counter;
+        }
+    }
+
+    // Shares ownership with the existing owners, if there are any left
+    SharedPtr(Pointer data, Counter* counter)
+    {
+        size_t owners = counter->load();
+        while (owners != 0 && !counter->compare_exchange_weak(owners, owners + 1))
+        {
+        }
+        if (owners != 0)
+        {
+            data_ = data;
+            ref_count_ = counter;
         }
     }
 
diff --git a/include/Caitlyn/__Core/Memory/Types/WeakPointer.h b/include/Caitlyn/__Core/Memory/Types/WeakPointer.h
index ba06cc9..9b484f9 100644
--- a/include/Caitlyn/__Core/Memory/Types/WeakPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/WeakPointer.h
@@ -32,45 +32,58 @@ public:
     using Resource = SharedPtr<T>;
 
 public:
-    WeakPtr() : data_(nullptr)
+    WeakPtr() = default;
+
+    WeakPtr(const Resource& resource) : data_{resource.data_}, counter_{resource.ref_count_}
     {
+        Acquire();
     }
 
-    WeakPtr(const Resource& resource) : data_{resource}
+    WeakPtr(const WeakPtr& other) : data_{other.data_}, counter_{other.counter_}
     {
+        Acquire();
     }
 
-    WeakPtr(const WeakPtr& other) : data_{other.data_}
+    WeakPtr(WeakPtr&& other) noexcept : data_{other.data_}, counter_{other.counter_}
     {
+        other.data_ = nullptr;
+        other.counter_ = nullptr;
     }
 
-    WeakPtr(WeakPtr&& other) noexcept : data_{std::move(other.data_)}
+    ~WeakPtr()
     {
+        if (counter_)
+        {
+            Resource::ReleaseCounter(counter_);
+        }
     }
 
 public:
     WeakPtr& operator=(const WeakPtr& other)
     {
-        data_ = other.data_;
+        WeakPtr copy{other};
+        Swap(copy);
         return *this;
     }
 
     WeakPtr& operator=(const Resource& sp)
     {
-        this->data_ = sp;
+        WeakPtr copy{sp};
+        Swap(copy);
         return *this;
     }
 
     WeakPtr& operator=(WeakPtr&& other) noexcept
     {
-        data_ = std::move(other.data_);
+        WeakPtr moved{std::move(other)};
+        Swap(moved);
         return *this;
     }
 
 public:
     Reference operator*() const
     {
-        if (data_ == nullptr || !data_.Get())
+        if (expired())
         {
             throw std::runtime_error{"Dereferencing null or expired weak pointer."};
         }
@@ -79,11 +92,11 @@ public:
 
     Pointer operator->() const
     {
-        if (data_ == nullptr || !data_.Get())
+        if (expired())
         {
             throw std::runtime_error{"Dereferencing null or expired weak pointer."};
         }
-        return data_.Get();
+        return data_;
     }
 
 public:
@@ -110,21 +123,33 @@ public:
 public:
     Resource lock() const
     {
-        if (data_ == nullptr || !data_.Get())
-        {
-            return Resource();
-        }
-        return data_;
+        return counter_ ? Resource{data_, counter_} : Resource{};
     }
 
 public:
     bool expired() const
     {
-        return data_ == nullptr || !data_.Get();
+        return counter_ == nullptr || counter_->load() == 0;
+    }
+
+private:
+    void Acquire() const
+    {
+        if (counter_)
+        {
+            counter_->weak_count.fetch_add(1, std::memory_order_relaxed);
+        }
+    }
+
+    void Swap(WeakPtr& other) noexcept
+    {
+        std::swap(data_, other.data_);
+        std::swap(counter_, other.counter_);
     }
 
 private:
-    Resource data_;
+    Pointer data_{};
+    typename Resource::Counter* counter_{};
 };
 
 __CAITLYN_GLOBAL_NAMESPACE_END
-- 
2.43.0


From 2a8bc5deb10120d9b240e4a8eacc5b6a172de65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:18 +0000
Subject: [PATCH 35/90] fix: JSON string escapes decode to the characters they
 denote, and the character after one is kept

---
 .../__Serializing/Json/Types/JsonParser.h     | 60 ++++++++++++++++---
 1 file changed, 52 insertions(+), 8 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 4f39650..7ef7090 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -278,6 +278,10 @@ private:
                 {
                     escaped_stream << Def::ReverseSolidus;
                 }
+                else if (json_[position_] == Def::Solidus)
+                {
+                    escaped_stream << Def::Solidus;
+                }
                 else if (json_[position_] == Def::LatinSmallLetterB)
                 {
                     escaped_stream << Def::Backspace;
@@ -300,25 +304,34 @@ private:
                 }
                 else if (json_[position_] == Def::LatinSmallLetterU)
                 {
-                    if (position_ + 4 >= json_.size())
+                    CodePoint code_point = 0;
+                    if (!ParseHex(position_ + 1, code_point))
                     {
                         SetError(JsonError::InvalidEscapeSequence);
                         SetErrorPosition(position_);
                         return JsonData{};
                     }
-                    String hex_code = json_.Substring(position_ + 1, 4);
-                    try
+                    position_ += 4;
+
+                    if (code_point >= 0xD800 && code_point <= 0xDBFF && position_ + 2 < json_.size() &&
+                        json_[position_ + 1] == Def::ReverseSolidus &&
+                        json_[position_ + 2] == Def::LatinSmallLetterU)
                     {
-                        const uint32_t code_point = std::stoul(hex_code.str(), nullptr, 16);
-                        escaped_stream << static_cast<char>(code_point);
+                        CodePoint low = 0;
+                        if (ParseHex(position_ + 3, low) && low >= 0xDC00 && low <= 0xDFFF)
+                        {
+                            code_point = 0x10000 + ((code_point - 0xD800) << 10) + (low - 0xDC00);
+                            position_ += 6;
+                        }
                     }
-                    catch (const std::exception&)
+                    // A lone surrogate denotes no character, and a String cannot hold U+0000
+                    if (code_point == 0 || (code_point >= 0xD800 && code_point <= 0xDFFF))
                     {
                         SetError(JsonError::InvalidEscapeSequence);
                         SetErrorPosition(position_);
                         return JsonData{};
                     }
-                    position_ += 4;
+                    escaped_stream << Char{code_point};
                 }
                 else
                 {
@@ -326,7 +339,6 @@ private:
                     SetErrorPosition(position_);
                     return JsonData{};
                 }
-                Next();
             }
             else
             {
@@ -344,6 +356,38 @@ private:
         return JsonData{};
     }
 
+    bool ParseHex(const SizeType start, CodePoint& value) const
+    {
+        if (start + 4 > json_.size())
+        {
+            return false;
+        }
+        value = 0;
+        for (SizeType i = start; i < start + 4; ++i)
+        {
+            const CodePoint digit = json_[i].GetCodePoint();
+            value *= 16;
+
+            if (digit >= '0' && digit <= '9')
+            {
+                value += digit - '0';
+            }
+            else if (digit >= 'a' && digit <= 'f')
+            {
+                value += digit - 'a' + 10;
+            }
+            else if (digit >= 'A' && digit <= 'F')
+            {
+                value += digit - 'A' + 10;
+            }
+            else
+            {
+                return false;
+            }
+        }
+        return true;
+    }
+
     JsonData ParseBoolean()
     {
         if (json_.str().compare(position_, 4, String::ValueOf(true)) == 0)
-- 
2.43.0


From 826a29ebbd056a168668c719bab39889162d0db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:18 +0000
Subject: [PATCH 36/90] fix: JSON keys may contain escape sequences

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 7ef7090..97ea7f7 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -134,18 +134,12 @@ private:
             }
             if (json_[position_] == Def::QuotationMark)
             {
-                Next();
-                const auto key_end = json_.Find(Def::QuotationMark, position_);
+                const String key = ParseString().GetString();
 
-                if (key_end == String::NPosition)
+                if (HasError())
                 {
-                    SetError(JsonError::UnterminatedString);
-                    SetErrorPosition(position_);
                     return JsonData{};
                 }
-                String key = json_.Substring(position_, key_end - position_);
-                position_ = key_end + 1;
-
                 SkipSpace();
                 if (json_[position_] != Def::Colon)
                 {
-- 
2.43.0


From 781fe47a26ffa7bde5baf8535026caaa240617aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:18 +0000
Subject: [PATCH 37/90] fix: malformed JSON inside a document is an error and
 is not read past the end

---
 .../__Serializing/Json/Types/JsonParser.h     | 46 +++++++++++++++----
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 97ea7f7..d1e18a1 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -42,6 +42,12 @@ public:
         const auto first = FindFirstNonSpace(json);
         const auto last = FindLastNonSpace(json);
 
+        if (first == json.size())
+        {
+            parser.SetError(JsonError::InvalidJson);
+            parser.SetErrorPosition(first);
+            return parser;
+        }
         if (json[first] != Def::LeftCurlyBracket)
         {
             parser.SetError(JsonError::InvalidJson);
@@ -55,6 +61,13 @@ public:
             return parser;
         }
         parser.data_ = parser.ParseValue();
+        parser.SkipSpace();
+
+        if (!parser.HasError() && parser.position_ < json.size())
+        {
+            parser.SetError(JsonError::UnexpectedCharacter);
+            parser.SetErrorPosition(parser.position_);
+        }
         return parser;
     }
 
@@ -84,6 +97,8 @@ private:
 
         if (position_ >= json_.size())
         {
+            SetError(JsonError::InvalidJson);
+            SetErrorPosition(position_);
             return JsonData{};
         }
         const auto current_char = json_[position_];
@@ -141,7 +156,7 @@ private:
                     return JsonData{};
                 }
                 SkipSpace();
-                if (json_[position_] != Def::Colon)
+                if (!IsAt(Def::Colon))
                 {
                     SetError(JsonError::MissingColon);
                     SetErrorPosition(position_);
@@ -151,20 +166,24 @@ private:
                 SkipSpace();
                 result[key] = ParseValue();
 
+                if (HasError())
+                {
+                    return JsonData{};
+                }
                 SkipSpace();
-                if (json_[position_] == Def::Comma)
+                if (IsAt(Def::Comma))
                 {
                     Next();
                     SkipSpace();
 
-                    if (json_[position_] == Def::RightCurlyBracket)
+                    if (IsAt(Def::RightCurlyBracket))
                     {
                         SetError(JsonError::TrailingComma);
                         SetErrorPosition(position_);
                         return JsonData{};
                     }
                 }
-                else if (json_[position_] == Def::RightCurlyBracket)
+                else if (IsAt(Def::RightCurlyBracket))
                 {
                     Next();
                     return result;
@@ -204,22 +223,27 @@ private:
                 return result;
             }
             const JsonData value = ParseValue();
+
+            if (HasError())
+            {
+                return JsonData{};
+            }
             result.Append(value);
 
             SkipSpace();
-            if (json_[position_] == Def::Comma)
+            if (IsAt(Def::Comma))
             {
                 Next();
                 SkipSpace();
 
-                if (json_[position_] == Def::RightSquareBracket)
+                if (IsAt(Def::RightSquareBracket))
                 {
                     SetError(JsonError::TrailingComma);
                     SetErrorPosition(position_);
                     return JsonData{};
                 }
             }
-            else if (json_[position_] == Def::RightSquareBracket)
+            else if (IsAt(Def::RightSquareBracket))
             {
                 Next();
                 return result;
@@ -340,7 +364,7 @@ private:
             }
             Next();
         }
-        if (json_[position_] == Def::QuotationMark)
+        if (IsAt(Def::QuotationMark))
         {
             Next();
             return escaped_stream.str();
@@ -448,6 +472,12 @@ private:
         }
     }
 
+    template <typename T>
+    bool IsAt(const T& value) const
+    {
+        return position_ < json_.size() && json_[position_] == value;
+    }
+
     void Next(const SizeType count = 1)
     {
         position_ += count;
-- 
2.43.0


From 6cd41768ea6ac9a6c9c8aa896b782142cce17f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:18 +0000
Subject: [PATCH 38/90] fix: control characters in JSON strings and spaces that
 are not JSON whitespace are errors

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index d1e18a1..e3ec21d 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -358,6 +358,12 @@ private:
                     return JsonData{};
                 }
             }
+            else if (json_[position_].GetCodePoint() < 0x20)
+            {
+                SetError(JsonError::UnexpectedCharacter);
+                SetErrorPosition(position_);
+                return JsonData{};
+            }
             else
             {
                 escaped_stream << json_[position_];
@@ -466,7 +472,8 @@ private:
 
     void SkipSpace()
     {
-        while (position_ < json_.size() && IsSpace(json_[position_].GetCodePoint()))
+        // JSON has only these four spaces
+        while (IsAt(Def::Space) || IsAt(Def::CharacterTabulation) || IsAt(Def::LineFeed) || IsAt(Def::CarriageReturn))
         {
             Next();
         }
-- 
2.43.0


From 9f4b8ca303c74899611af9d7483add8460655f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:18 +0000
Subject: [PATCH 39/90] fix: JSON literals after multi-byte characters are
 found

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index e3ec21d..d4e0d34 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -262,7 +262,7 @@ private:
 
     JsonData ParseNull()
     {
-        if (json_.str().compare(position_, 4, String::ValueOf(nullptr)) == 0)
+        if (json_.Substring(position_, 4) == String::ValueOf(nullptr))
         {
             Next(4);
             return MakeNull();
@@ -414,12 +414,12 @@ private:
 
     JsonData ParseBoolean()
     {
-        if (json_.str().compare(position_, 4, String::ValueOf(true)) == 0)
+        if (json_.Substring(position_, 4) == String::ValueOf(true))
         {
             Next(4);
             return true;
         }
-        if (json_.str().compare(position_, 5, String::ValueOf(false)) == 0)
+        if (json_.Substring(position_, 5) == String::ValueOf(false))
         {
             Next(5);
             return false;
-- 
2.43.0


From 8a37808e8b0a5e60ccfb83b317f9df428aa8ce89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:35 +0000
Subject: [PATCH 40/90] fix: FindLastNonSpace looks at the first character and
 does not underflow on an empty string

---
 include/Caitlyn/__Core/String/Utility.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 1533432..3f4d096 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -166,11 +166,11 @@ inline size_t FindFirstNonSpace(const String& str)
 
 inline size_t FindLastNonSpace(const String& str)
 {
-    for (size_t i = str.size() - 1; i > 0; --i)
+    for (size_t i = str.size(); i > 0; --i)
     {
-        if (!IsSpace(str[i].GetCodePoint()))
+        if (!IsSpace(str[i - 1].GetCodePoint()))
         {
-            return i;
+            return i - 1;
         }
     }
     return str.size();
-- 
2.43.0


From af5b05a868c1899cb820eb4781aa1e3cedec65d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:35 +0000
Subject: [PATCH 41/90] fix: text that is not a JSON number is not accepted as
 one

---
 .../__Serializing/Json/Types/JsonParser.h     | 54 +++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index d4e0d34..5cf8161 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -441,6 +441,12 @@ private:
             ++end_number;
         }
         const String number_str = json_.Substring(position_, end_number - position_);
+        if (!IsNumberLiteral(number_str.str()))
+        {
+            SetError(JsonError::InvalidNumber);
+            SetErrorPosition(position_);
+            return JsonData{};
+        }
         try
         {
             if (number_str.Find(Def::PlusSign) != String::NPosition ||
@@ -470,6 +476,54 @@ private:
         return result;
     }
 
+    // number = [ "-" ] ( "0" / digit1-9 *digit ) [ "." 1*digit ] [ ( "e" / "E" ) [ "-" / "+" ] 1*digit ]
+    static bool IsNumberLiteral(const std::string& text)
+    {
+        SizeType i = 0;
+        const auto skip_digits = [&text, &i]()
+        {
+            const SizeType start = i;
+            while (i < text.size() && text[i] >= '0' && text[i] <= '9')
+            {
+                ++i;
+            }
+            return i - start;
+        };
+
+        if (i < text.size() && text[i] == '-')
+        {
+            ++i;
+        }
+        const bool leading_zero = i < text.size() && text[i] == '0';
+        const SizeType integer_digits = skip_digits();
+
+        if (integer_digits == 0 || (leading_zero && integer_digits > 1))
+        {
+            return false;
+        }
+        if (i < text.size() && text[i] == '.')
+        {
+            ++i;
+            if (skip_digits() == 0)
+            {
+                return false;
+            }
+        }
+        if (i < text.size() && (text[i] == 'e' || text[i] == 'E'))
+        {
+            ++i;
+            if (i < text.size() && (text[i] == '-' || text[i] == '+'))
+            {
+                ++i;
+            }
+            if (skip_digits() == 0)
+            {
+                return false;
+            }
+        }
+        return i == text.size();
+    }
+
     void SkipSpace()
     {
         // JSON has only these four spaces
-- 
2.43.0


From 1059df2876b9496bb45f0baca3da9d4ba0c1d4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:35 +0000
Subject: [PATCH 42/90] fix: JSON numbers with a fraction are floating, and
 ones beyond the floating range are errors

---
 .../Caitlyn/__Serializing/Json/Types/JsonParser.h  | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 5cf8161..5fd3b15 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -18,6 +18,11 @@
 #ifndef CAITLYN_SERIALIZING_JSON_TYPES_PARSER_H_
 #define CAITLYN_SERIALIZING_JSON_TYPES_PARSER_H_
 
+#include <cmath>
+#include <cstdlib>
+#include <stdexcept>
+#include <string>
+
 #include "Caitlyn/__Core/String.h"
 #include "Caitlyn/__Serializing/Json/Types/JsonData.h"
 #include "Caitlyn/__Serializing/Json/Types/JsonError.h"
@@ -450,10 +455,17 @@ private:
         try
         {
             if (number_str.Find(Def::PlusSign) != String::NPosition ||
+                number_str.Find(Def::FullStop) != String::NPosition ||
                 number_str.Find(Def::LatinSmallLetterE) != String::NPosition ||
                 number_str.Find(Def::LatinCapitalLetterE) != String::NPosition)
             {
-                result = std::stod(number_str.str());
+                const JsonData::FloatingType value = std::strtof(number_str.str().c_str(), nullptr);
+
+                if (std::isinf(value))
+                {
+                    throw std::out_of_range{"Number out of range"};
+                }
+                result = value;
             }
             else
             {
-- 
2.43.0


From eaa9341d4b100880101b775d7a414f8f63e552d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:35 +0000
Subject: [PATCH 43/90] fix: JSON floating values are serialized as JSON
 numbers that read back as the same value

---
 .../__Serializing/Json/Types/JsonData.h       | 38 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index b5d8a48..640e520 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -19,7 +19,11 @@
 #define CAITLYN_SERIALIZING_JSON_TYPES_DATA_H_
 
 #include <algorithm>
+#include <cmath>
+#include <cstdlib>
 #include <deque>
+#include <limits>
+#include <locale>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -342,6 +346,7 @@ public:
     StringType ToString(const BooleanType mangling = false, const SizeType indent = 2) const
     {
         std::ostringstream oss;
+        oss.imbue(std::locale::classic());
         MakeOutput(oss, mangling, indent, indent);
         return oss.str();
     }
@@ -450,7 +455,7 @@ private:
                 oss << Def::QuotationMark << data_.string_value << Def::QuotationMark;
                 break;
             case JsonClass::Floating:
-                oss << data_.floating_value;
+                MakeFloatingOutput(oss, data_.floating_value);
                 break;
             case JsonClass::Integral:
                 oss << data_.integral_value;
@@ -466,6 +471,37 @@ private:
         }
     }
 
+    // The shortest text that reads back as the same value; JSON has no infinities and NaNs
+    static void MakeFloatingOutput(std::ostringstream& oss, const FloatingType value)
+    {
+        if (!std::isfinite(value))
+        {
+            oss << String::ValueOf(nullptr);
+            return;
+        }
+        std::string text;
+        for (int precision = std::numeric_limits<FloatingType>::digits10;
+             precision <= std::numeric_limits<FloatingType>::max_digits10;
+             ++precision)
+        {
+            std::ostringstream stream;
+            stream.imbue(std::locale::classic());
+            stream.precision(precision);
+            stream << value;
+            text = stream.str();
+
+            if (std::strtof(text.c_str(), nullptr) == value)
+            {
+                break;
+            }
+        }
+        if (text.find_first_of(".e") == std::string::npos)
+        {
+            text += ".0";
+        }
+        oss << text;
+    }
+
     void CopyUnion(const JsonData& other)
     {
         switch (other.type_)
-- 
2.43.0


From d1b838d0ab3bf6539439d7236520735187f79abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:35 +0000
Subject: [PATCH 44/90] fix: quotation marks, backslashes and control
 characters in JSON strings and keys are escaped

---
 .../__Serializing/Json/Types/JsonData.h       | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 640e520..d2dbecb 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -391,7 +391,8 @@ private:
                         {
                             oss << indent_str;
                         }
-                        oss << Def::QuotationMark << member.first << Def::QuotationMark << Def::Colon;
+                        MakeStringOutput(oss, member.first);
+                        oss << Def::Colon;
                         if (mangling)
                         {
                             oss << Def::Space;
@@ -452,7 +453,7 @@ private:
                 break;
             }
             case JsonClass::String:
-                oss << Def::QuotationMark << data_.string_value << Def::QuotationMark;
+                MakeStringOutput(oss, data_.string_value);
                 break;
             case JsonClass::Floating:
                 MakeFloatingOutput(oss, data_.floating_value);
@@ -471,6 +472,31 @@ private:
         }
     }
 
+    static void MakeStringOutput(std::ostringstream& oss, const StringType& value)
+    {
+        constexpr auto hex_digits = "0123456789abcdef";
+
+        oss << Def::QuotationMark;
+        for (const auto& character : value)
+        {
+            const CodePoint code_point = character.GetCodePoint();
+
+            if (character == Def::QuotationMark || character == Def::ReverseSolidus)
+            {
+                oss << Def::ReverseSolidus << character;
+            }
+            else if (code_point < 0x20)
+            {
+                oss << "\\u00" << hex_digits[code_point / 16] << hex_digits[code_point % 16];
+            }
+            else
+            {
+                oss << character;
+            }
+        }
+        oss << Def::QuotationMark;
+    }
+
     // The shortest text that reads back as the same value; JSON has no infinities and NaNs
     static void MakeFloatingOutput(std::ostringstream& oss, const FloatingType value)
     {
-- 
2.43.0


From 7b42c9780a2804b185de63bed496046e3fa0aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:35 +0000
Subject: [PATCH 45/90] fix: deeply nested JSON is an error instead of a stack
 overflow

---
 .../__Serializing/Json/Types/JsonError.h      |  3 ++-
 .../__Serializing/Json/Types/JsonParser.h     | 21 +++++++++++++------
 include/Caitlyn/__Serializing/Json/Utility.h  |  2 ++
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonError.h b/include/Caitlyn/__Serializing/Json/Types/JsonError.h
index 5b43088..22001d4 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonError.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonError.h
@@ -38,7 +38,8 @@ enum class JsonError
     InvalidEscapeSequence,
     NumberConversionError,
     OutOfRangeError,
-    TrailingComma
+    TrailingComma,
+    NestingTooDeep
 };
 
 __CAITLYN_JSON_NAMESPACE_END
diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 5fd3b15..827b79f 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -112,13 +112,18 @@ private:
         {
             return ParseString();
         }
-        if (current_char == Def::LeftCurlyBracket)
+        if (current_char == Def::LeftCurlyBracket || current_char == Def::LeftSquareBracket)
         {
-            return ParseObject();
-        }
-        if (current_char == Def::LeftSquareBracket)
-        {
-            return ParseArray();
+            if (depth_ == MaxDepth)
+            {
+                SetError(JsonError::NestingTooDeep);
+                SetErrorPosition(position_);
+                return JsonData{};
+            }
+            ++depth_;
+            JsonData result = current_char == Def::LeftCurlyBracket ? ParseObject() : ParseArray();
+            --depth_;
+            return result;
         }
         if (current_char == Def::LatinSmallLetterT || current_char == Def::LatinSmallLetterF)
         {
@@ -572,6 +577,10 @@ private:
     const String& json_;
     SizeType position_;
     SizeType errorPosition_;
+    SizeType depth_{};
+
+    // Parsing, copying and destroying a document recurse once per level
+    static constexpr SizeType MaxDepth{512};
 };
 
 __CAITLYN_DETAIL_NAMESPACE_END
diff --git a/include/Caitlyn/__Serializing/Json/Utility.h b/include/Caitlyn/__Serializing/Json/Utility.h
index b6a6ecc..df88653 100644
--- a/include/Caitlyn/__Serializing/Json/Utility.h
+++ b/include/Caitlyn/__Serializing/Json/Utility.h
@@ -51,6 +51,8 @@ inline const char* GetErrorString(const JsonError error)
             return "Unexpected character.";
         case JsonError::TrailingComma:
             return "Trailing comma.";
+        case JsonError::NestingTooDeep:
+            return "Nesting too deep.";
         case JsonError::InvalidJson:
             return "Invalid JSON.";
         default:
-- 
2.43.0


From 6be0c4efcb059e3268f355d71fc0bb50e5582ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:35 +0000
Subject: [PATCH 46/90] fix: every JSON error has its message

---
 include/Caitlyn/__Serializing/Json/Utility.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Utility.h b/include/Caitlyn/__Serializing/Json/Utility.h
index df88653..d1dc157 100644
--- a/include/Caitlyn/__Serializing/Json/Utility.h
+++ b/include/Caitlyn/__Serializing/Json/Utility.h
@@ -43,6 +43,10 @@ inline const char* GetErrorString(const JsonError error)
             return "Unterminated array.";
         case JsonError::InvalidNumber:
             return "Invalid number.";
+        case JsonError::InvalidEscapeSequence:
+            return "Invalid escape sequence.";
+        case JsonError::OutOfRangeError:
+            return "Number out of range.";
         case JsonError::NumberConversionError:
             return "Number conversion error.";
         case JsonError::InvalidValue:
-- 
2.43.0


From 3e6d3a747790821c065aca25873c29fea256244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:35 +0000
Subject: [PATCH 47/90] fix: JSON strings and moved-from JSON values are
 destroyed

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index d2dbecb..9a183db 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -587,13 +587,16 @@ private:
                 break;
             case JsonClass::Array:
                 new (&data_.array_value) ArrayType{std::move(other.data_.array_value)};
+                other.data_.array_value.clear();
                 break;
             case JsonClass::Object:
                 new (&data_.object_value) ObjectType{std::move(other.data_.object_value)};
+                other.data_.object_value.clear();
                 break;
             default:
                 break;
         }
+        other.DestroyUnion();
         other.type_ = JsonClass::Null;
         new (&other.data_.null_value) NullType{};
     }
@@ -616,6 +619,9 @@ private:
                 }
                 data_.object_value.~ObjectType();
                 break;
+            case JsonClass::String:
+                data_.string_value.~StringType();
+                break;
             default:
                 break;
         }
-- 
2.43.0


From c0c78bdebedbb7da327a1d65b0390de2cc7e275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:35 +0000
Subject: [PATCH 48/90] fix: assigning a part of a JSON value to the value
 itself

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 9a183db..f895e1d 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -105,9 +105,11 @@ public:
     {
         if (this != &other)
         {
+            // The other value may be a part of this one
+            JsonData copy(other);
             DestroyUnion();
-            type_ = other.type_;
-            CopyUnion(other);
+            type_ = copy.type_;
+            MoveUnion(std::move(copy));
         }
         return *this;
     }
@@ -116,9 +118,11 @@ public:
     {
         if (this != &other)
         {
+            // The other value may be a part of this one
+            JsonData temporary(std::move(other));
             DestroyUnion();
-            type_ = other.type_;
-            MoveUnion(std::move(other));
+            type_ = temporary.type_;
+            MoveUnion(std::move(temporary));
         }
         return *this;
     }
-- 
2.43.0


From c1fa44acedbd07639fa03f4f5860d354a5ac9a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:35 +0000
Subject: [PATCH 49/90] fix: indexing a JSON array beyond its end creates the
 elements up to the index

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index f895e1d..80cdcf8 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -184,11 +184,10 @@ public:
         auto& array = data_.array_value;
         if (index >= array.size())
         {
-            array.resize(index + 1, nullptr);
-        }
-        if (!array[index])
-        {
-            new (array[index]) JsonData{};
+            while (array.size() <= index)
+            {
+                array.emplace_back(new JsonData{});
+            }
         }
         return *array[index];
     }
-- 
2.43.0


From d4d352db7a7246dc7c37492e308d8dd2b545747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:35 +0000
Subject: [PATCH 50/90] fix: reading a member or element of a JSON value that
 is not an object or array throws

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 80cdcf8..1f689f5 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -200,6 +200,10 @@ public:
 
     const JsonData& At(const StringType& key) const
     {
+        if (type_ != JsonClass::Object)
+        {
+            throw std::out_of_range{"Not an object"};
+        }
         const auto& object = data_.object_value;
         const auto it = std::find_if(
             object.begin(),
@@ -220,6 +224,10 @@ public:
 
     const JsonData& At(const SizeType index) const
     {
+        if (type_ != JsonClass::Array)
+        {
+            throw std::out_of_range{"Not an array"};
+        }
         return *data_.array_value.at(index);
     }
 
-- 
2.43.0


From d487f230c94dcf2a713147d49ce98f062bac7623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:35 +0000
Subject: [PATCH 51/90] fix: a removed JSON member is destroyed

---
 include/Caitlyn/__Serializing/Json/Types/Json.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/Json.h b/include/Caitlyn/__Serializing/Json/Types/Json.h
index f4cff9a..2dedbcc 100644
--- a/include/Caitlyn/__Serializing/Json/Types/Json.h
+++ b/include/Caitlyn/__Serializing/Json/Types/Json.h
@@ -136,13 +136,12 @@ public:
         if (root_.HasMember(key))
         {
             auto& obj = root_.GetData();
-            obj.erase(
-                std::remove_if(
-                    obj.begin(),
-                    obj.end(),
-                    [&key](const std::pair<const String&, const DataType*>& pair)
-                    { return pair.first == key; }),
-                obj.end());
+            const auto it = std::find_if(
+                obj.begin(),
+                obj.end(),
+                [&key](const std::pair<const String&, const DataType*>& pair) { return pair.first == key; });
+            delete it->second;
+            obj.erase(it);
         }
     }
 
-- 
2.43.0


From d837b61c04988159e4288bd65dc69f6baeed67c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:35 +0000
Subject: [PATCH 52/90] fix: MakeFloating, MakeIntegral and MakeBoolean make
 values of these types

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 1f689f5..a5662e2 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -733,17 +733,17 @@ inline __Detail::JsonData MakeString(const std::string& value)
 
 inline __Detail::JsonData MakeFloating(const __Detail::JsonData::FloatingType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 inline __Detail::JsonData MakeIntegral(const __Detail::JsonData::IntegralType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 inline __Detail::JsonData MakeBoolean(const __Detail::JsonData::BooleanType value)
 {
-    return __Detail::JsonData{std::to_string(value)};
+    return __Detail::JsonData{value};
 }
 
 __CAITLYN_JSON_NAMESPACE_END
-- 
2.43.0


From 3064d734701bac861b7cee2ce84ebe7976b89af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:04 +0000
Subject: [PATCH 53/90] fix: a nullptr makes a JSON value null instead of being
 read as a string

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index a5662e2..5834f84 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -65,6 +65,10 @@ public:
         MoveUnion(std::move(other));
     }
 
+    JsonData(NullType) : JsonData()
+    {
+    }
+
     template <typename T>
     JsonData(T value, typename std::enable_if<std::is_same<T, BooleanType>::value>::type* = nullptr)
         : type_{JsonClass::Boolean}
@@ -127,6 +131,12 @@ public:
         return *this;
     }
 
+    JsonData& operator=(NullType)
+    {
+        SetType(JsonClass::Null);
+        return *this;
+    }
+
     template <typename T>
     typename std::enable_if<std::is_same<T, BooleanType>::value, JsonData&>::type operator=(T value)
     {
-- 
2.43.0


From bfed8325bed2972daf6c992349b73c77f627a1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:30 +0000
Subject: [PATCH 54/90] fix: a test failing with a message that is not UTF-8
 does not end the run

---
 include/Caitlyn/__Testing/Types/TestRegistry.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Testing/Types/TestRegistry.h b/include/Caitlyn/__Testing/Types/TestRegistry.h
index fc2c323..8746cb7 100644
--- a/include/Caitlyn/__Testing/Types/TestRegistry.h
+++ b/include/Caitlyn/__Testing/Types/TestRegistry.h
@@ -21,6 +21,7 @@
 #include <chrono>
 #include <iostream>
 #include <map>
+#include <string>
 #include <vector>
 
 #include "Caitlyn/__Base.h"
@@ -138,7 +139,7 @@ private:
         }
     }
 
-    void LogTestFailure(const TestCase& test, const String& message) const
+    void LogTestFailure(const TestCase& test, const std::string& message) const
     {
         std::cout << "[     FAIL ] " << test.suite_name << '.' << test.test_name << " (" << localDiff_.count()
                   << " ms)\n"
-- 
2.43.0


From 32584531c86a65ba61c39dd3f1c40992b60fde00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:30 +0000
Subject: [PATCH 55/90] fix: ASSERT_STREQ fails its test instead of aborting
 the run, and evaluates its arguments once

---
 include/Caitlyn/__Testing/Macro/Assert.h | 29 +++++++++++++++---------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/include/Caitlyn/__Testing/Macro/Assert.h b/include/Caitlyn/__Testing/Macro/Assert.h
index a386cd8..51ad64d 100644
--- a/include/Caitlyn/__Testing/Macro/Assert.h
+++ b/include/Caitlyn/__Testing/Macro/Assert.h
@@ -18,6 +18,11 @@
 #ifndef CAITLYN_TEST_MACRO_ASSERT_H_
 #define CAITLYN_TEST_MACRO_ASSERT_H_
 
+#include <cstring>
+#include <sstream>
+#include <stdexcept>
+#include <string>
+
 #include "Caitlyn/__Core/Traits.h"
 #include "Caitlyn/__Testing/Types.h"
 
@@ -93,25 +98,27 @@
 #define ASSERT_STREQ(expected, actual)                                                                                 \
     do                                                                                                                 \
     {                                                                                                                  \
-        if ((expected) == nullptr && (actual) == nullptr)                                                              \
+        const char* const caitlyn_expected = (expected);                                                               \
+        const char* const caitlyn_actual = (actual);                                                                   \
+        if (caitlyn_expected == nullptr && caitlyn_actual == nullptr)                                                  \
         {                                                                                                              \
             break;                                                                                                     \
         }                                                                                                              \
-        else if ((expected) == nullptr)                                                                                \
+        else if (caitlyn_expected == nullptr)                                                                          \
         {                                                                                                              \
-            std::cerr << "Assertion failed: Expected nullptr, but got \"" << (actual) << "\"" << std::endl;            \
-            std::abort();                                                                                              \
+            throw std::runtime_error(                                                                                  \
+                std::string("Assertion failed: Expected nullptr, but got \"") + caitlyn_actual + "\"");                \
         }                                                                                                              \
-        else if ((actual) == nullptr)                                                                                  \
+        else if (caitlyn_actual == nullptr)                                                                            \
         {                                                                                                              \
-            std::cerr << "Assertion failed: Expected \"" << (expected) << "\", but got nullptr" << std::endl;          \
-            std::abort();                                                                                              \
+            throw std::runtime_error(                                                                                  \
+                std::string("Assertion failed: Expected \"") + caitlyn_expected + "\", but got nullptr");              \
         }                                                                                                              \
-        else if (std::strcmp((expected), (actual)) != 0)                                                               \
+        else if (std::strcmp(caitlyn_expected, caitlyn_actual) != 0)                                                   \
         {                                                                                                              \
-            std::cerr << "Assertion failed: Expected \"" << (expected) << "\", but got \"" << (actual) << "\""         \
-                      << std::endl;                                                                                    \
-            std::abort();                                                                                              \
+            throw std::runtime_error(                                                                                  \
+                std::string("Assertion failed: Expected \"") + caitlyn_expected + "\", but got \"" +                   \
+                caitlyn_actual + "\"");                                                                                \
         }                                                                                                              \
     }                                                                                                                  \
     while (false)
-- 
2.43.0


From bf739a6451372b489142fc7917578cb7ab7ff8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:30 +0000
Subject: [PATCH 56/90] fix: running all tests again counts that run only

---
 include/Caitlyn/__Testing/Types/TestRegistry.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Caitlyn/__Testing/Types/TestRegistry.h b/include/Caitlyn/__Testing/Types/TestRegistry.h
index 8746cb7..d063a24 100644
--- a/include/Caitlyn/__Testing/Types/TestRegistry.h
+++ b/include/Caitlyn/__Testing/Types/TestRegistry.h
@@ -53,6 +53,9 @@ public:
 
     int RunAll()
     {
+        passed_ = 0;
+        failed_ = 0;
+
         LogStart();
 
         startGlobalTime_ = std::chrono::steady_clock::now();
-- 
2.43.0


From 03fb4fff30dbd6297ef901d5ea22b33028e2a8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:30 +0000
Subject: [PATCH 57/90] fix: an else after ASSERT_TRUE or ASSERT_FALSE belongs
 to the if before it

---
 include/Caitlyn/__Testing/Macro/Assert.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Testing/Macro/Assert.h b/include/Caitlyn/__Testing/Macro/Assert.h
index 51ad64d..6e0d8e4 100644
--- a/include/Caitlyn/__Testing/Macro/Assert.h
+++ b/include/Caitlyn/__Testing/Macro/Assert.h
@@ -27,12 +27,18 @@
 #include "Caitlyn/__Testing/Types.h"
 
 #define ASSERT_TRUE(condition)                                                                                         \
-    if (!(condition))                                                                                                  \
-    throw std::runtime_error("Assertion failed: " #condition)
+    if (condition)                                                                                                     \
+    {                                                                                                                  \
+    }                                                                                                                  \
+    else                                                                                                               \
+        throw std::runtime_error("Assertion failed: " #condition)
 
 #define ASSERT_FALSE(condition)                                                                                        \
-    if (condition)                                                                                                     \
-    throw std::runtime_error("Assertion failed: " #condition)
+    if (!(condition))                                                                                                  \
+    {                                                                                                                  \
+    }                                                                                                                  \
+    else                                                                                                               \
+        throw std::runtime_error("Assertion failed: " #condition)
 
 #define ASSERT_EQ(val1, val2)                                                                                          \
     if (!((val1) == (val2)))                                                                                           \
-- 
2.43.0


From f88fc49fcb3461361f6bc39ebcba10d8c9fbb9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:08 +0000
Subject: [PATCH 58/90] fix: Random covers floating ranges wider than the
 largest value, and by default negative values too

---
 include/Caitlyn/__Core/Utility/Random.h | 27 ++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/Caitlyn/__Core/Utility/Random.h b/include/Caitlyn/__Core/Utility/Random.h
index 32004fa..1d5432f 100644
--- a/include/Caitlyn/__Core/Utility/Random.h
+++ b/include/Caitlyn/__Core/Utility/Random.h
@@ -27,8 +27,24 @@
 
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 
+__CAITLYN_DETAIL_NAMESPACE_BEGIN
+
+template <typename T>
+T random_real(const T min, const T max)
+{
+    std::mt19937_64 engine(std::chrono::steady_clock::now().time_since_epoch().count());
+    if (max / 2 - min / 2 > std::numeric_limits<T>::max() / 2)
+    {
+        // The width of the range is not representable
+        return std::uniform_real_distribution<T>{min / 2, max / 2}(engine) * 2;
+    }
+    return std::uniform_real_distribution<T>{min, max}(engine);
+}
+
+__CAITLYN_DETAIL_NAMESPACE_END
+
 template <typename T>
-T Random(T min = std::numeric_limits<T>::min(), T max = std::numeric_limits<T>::max());
+T Random(T min = std::numeric_limits<T>::lowest(), T max = std::numeric_limits<T>::max());
 
 template <>
 inline Int16 Random(const Int16 min, const Int16 max)
@@ -75,22 +91,19 @@ inline UInt64 Random(const UInt64 min, const UInt64 max)
 template <>
 inline Float Random(const Float min, const Float max)
 {
-    std::mt19937_64 engine(std::chrono::steady_clock::now().time_since_epoch().count());
-    return std::uniform_real_distribution<Float>{min, max}(engine);
+    return __Detail::random_real(min, max);
 }
 
 template <>
 inline Double Random(const Double min, const Double max)
 {
-    std::mt19937_64 engine(std::chrono::steady_clock::now().time_since_epoch().count());
-    return std::uniform_real_distribution<Double>{min, max}(engine);
+    return __Detail::random_real(min, max);
 }
 
 template <>
 inline Decimal Random(const Decimal min, const Decimal max)
 {
-    std::mt19937_64 engine(std::chrono::steady_clock::now().time_since_epoch().count());
-    return std::uniform_real_distribution<Decimal>{min, max}(engine);
+    return __Detail::random_real(min, max);
 }
 
 inline Bool RandomBoolean(const Double percentage = 0.5)
-- 
2.43.0


From 175efda4c6a71a755ba369dfac959e8e003f1bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:08 +0000
Subject: [PATCH 59/90] fix: RandomBoolean rejects a NaN percentage

---
 include/Caitlyn/__Core/Utility/Random.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Utility/Random.h b/include/Caitlyn/__Core/Utility/Random.h
index 1d5432f..542bc3d 100644
--- a/include/Caitlyn/__Core/Utility/Random.h
+++ b/include/Caitlyn/__Core/Utility/Random.h
@@ -108,7 +108,7 @@ inline Decimal Random(const Decimal min, const Decimal max)
 
 inline Bool RandomBoolean(const Double percentage = 0.5)
 {
-    if (percentage < 0.0 || percentage > 1.0)
+    if (!(percentage >= 0.0 && percentage <= 1.0))
     {
         throw std::invalid_argument{"True percentage is only 0.0..1.0"};
     }
-- 
2.43.0


From b6104163c66d776c7d3b10c91d72242f423b494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:08 +0000
Subject: [PATCH 60/90] fix: cmp_ne, cmp_greater, cmp_le and cmp_ge call
 functions that exist

---
 include/Caitlyn/__Core/Utility/Comparators.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/Utility/Comparators.h b/include/Caitlyn/__Core/Utility/Comparators.h
index 4fbff51..8b70d75 100644
--- a/include/Caitlyn/__Core/Utility/Comparators.h
+++ b/include/Caitlyn/__Core/Utility/Comparators.h
@@ -42,7 +42,7 @@ bool cmp_eq(T t, U u) noexcept
 template <typename T, typename U>
 constexpr bool cmp_ne(T t, U u) noexcept
 {
-    return !compare_equal(t, u);
+    return !cmp_eq(t, u);
 }
 
 template <typename T, typename U>
@@ -65,19 +65,19 @@ bool cmp_less(T t, U u) noexcept
 template <typename T, typename U>
 constexpr bool cmp_greater(T t, U u) noexcept
 {
-    return compare_less(u, t);
+    return cmp_less(u, t);
 }
 
 template <typename T, typename U>
 constexpr bool cmp_le(T t, U u) noexcept
 {
-    return !compare_greater(t, u);
+    return !cmp_greater(t, u);
 }
 
 template <typename T, typename U>
 constexpr bool cmp_ge(T t, U u) noexcept
 {
-    return !compare_less(t, u);
+    return !cmp_less(t, u);
 }
 
 __CAITLYN_GLOBAL_NAMESPACE_END
-- 
2.43.0


From 147bdaf3befaca8d701e1339481ef895d6726285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:08 +0000
Subject: [PATCH 61/90] fix: kmp finds an empty pattern in every text and does
 not read past its end

---
 include/Caitlyn/__Core/String/Algorithms/Kmp.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Caitlyn/__Core/String/Algorithms/Kmp.h b/include/Caitlyn/__Core/String/Algorithms/Kmp.h
index daf313b..9b87377 100644
--- a/include/Caitlyn/__Core/String/Algorithms/Kmp.h
+++ b/include/Caitlyn/__Core/String/Algorithms/Kmp.h
@@ -49,6 +49,10 @@ inline bool kmp(const std::string& pattern, const std::string& text)
 {
     const size_t text_size = text.size();
     const size_t pattern_size = pattern.size();
+    if (pattern_size == 0)
+    {
+        return true;
+    }
     const auto failure = __Detail::get_kmp_failure_vec(pattern);
 
     for (size_t i = 0, j = 0; i < text_size; ++i)
-- 
2.43.0


From b297c4052dc3ed7111622ec98390dfdafb9f76f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:08 +0000
Subject: [PATCH 62/90] fix: Repeat zero times gives an empty string

---
 include/Caitlyn/__Core/String/Utility.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 3f4d096..9e2403c 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -42,10 +42,6 @@ inline std::vector<std::string> Split(const std::string& text, const char delim)
 
 inline std::string Repeat(const std::string& str, const size_t count)
 {
-    if (count < 2)
-    {
-        return str;
-    }
     std::stringstream ss;
     for (size_t i = 0; i < count; ++i)
     {
-- 
2.43.0


From a524d577512200419db5577a22b1cb80f056bf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:29 +0000
Subject: [PATCH 63/90] fix: EscapeString does not repeat the character of an
 unknown escape sequence

---
 include/Caitlyn/__Core/String/Utility.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 9e2403c..7927739 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -132,6 +132,7 @@ inline String EscapeString(const String& str)
             {
                 // Invalid escape sequence, handle it as an error
                 oss << Def::ReverseSolidus << str[i + 1];
+                ++i;
             }
         }
         else
-- 
2.43.0


From d548426198febca61bdecea3c135c3c933009c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:29 +0000
Subject: [PATCH 64/90] fix: EscapeString decodes \u escapes beyond U+007F and
 keeps malformed ones

---
 include/Caitlyn/__Core/String/Utility.h | 52 +++++++++++++++++++++----
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index 7927739..d1da937 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -50,6 +50,31 @@ inline std::string Repeat(const std::string& str, const size_t count)
     return ss.str();
 }
 
+__CAITLYN_DETAIL_NAMESPACE_BEGIN
+
+inline bool read_unicode_escape(const String& str, const size_t start, CodePoint& code_point)
+{
+    if (start + 6 > str.size() || str[start] != Def::ReverseSolidus || str[start + 1] != Def::LatinSmallLetterU)
+    {
+        return false;
+    }
+    code_point = 0;
+    for (size_t i = start + 2; i < start + 6; ++i)
+    {
+        const CodePoint c = str[i].GetCodePoint();
+        const bool is_digit = c >= '0' && c <= '9';
+        const bool is_letter = (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
+        if (!is_digit && !is_letter)
+        {
+            return false;
+        }
+        code_point = code_point * 16 + (is_digit ? c - '0' : (c | 0x20) - 'a' + 10);
+    }
+    return true;
+}
+
+__CAITLYN_DETAIL_NAMESPACE_END
+
 inline String EscapeString(const String& str)
 {
     std::ostringstream oss;
@@ -115,17 +140,30 @@ inline String EscapeString(const String& str)
             }
             else if (str[i + 1] == Def::LatinSmallLetterU)
             {
-                if (i + 5 < str.size())
+                CodePoint code_point{};
+                CodePoint low{};
+                if (!__Detail::read_unicode_escape(str, i, code_point))
                 {
-                    auto hex = str.Substring(i + 2, 4).str();
-                    // Convert the hexadecimal representation to a character
-                    oss << static_cast<char>(std::stoi(hex, nullptr, 16));
-                    i += 5; // Skip the escaped sequence
+                    // Incomplete escape sequence, handle it as an error
+                    oss << Def::ReverseSolidus << str[i + 1];
+                    ++i;
                 }
-                else
+                else if (code_point >= 0xD800 && code_point <= 0xDBFF &&
+                         __Detail::read_unicode_escape(str, i + 6, low) && low >= 0xDC00 && low <= 0xDFFF)
                 {
-                    // Incomplete escape sequence, handle it as an error
+                    oss << Char{0x10000 + ((code_point - 0xD800) << 10) + (low - 0xDC00)};
+                    i += 11; // Skip both halves of the surrogate pair
+                }
+                else if (code_point == 0 || (code_point >= 0xD800 && code_point <= 0xDFFF))
+                {
+                    // Not a character a String can hold, handle it as an error
                     oss << Def::ReverseSolidus << str[i + 1];
+                    ++i;
+                }
+                else
+                {
+                    oss << Char{code_point};
+                    i += 5; // Skip the escaped sequence
                 }
             }
             else
-- 
2.43.0


From 400c89942549339e2a70ac569b9eb416f9eaff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:55 +0000
Subject: [PATCH 65/90] fix: the public headers compile on case-sensitive file
 systems

---
 include/Caitlyn/__Caitlyn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Caitlyn.h b/include/Caitlyn/__Caitlyn.h
index 754ffb6..2ebaa2c 100644
--- a/include/Caitlyn/__Caitlyn.h
+++ b/include/Caitlyn/__Caitlyn.h
@@ -18,6 +18,6 @@
 #ifndef CAITLYN_CAITLYN_H_
 #define CAITLYN_CAITLYN_H_
 
-#include "caitlyn/__caitlyn/application.h"
+#include "Caitlyn/__Caitlyn/Application.h"
 
 #endif // CAITLYN_CAITLYN_H_
-- 
2.43.0


From c3716fca487f59bc1852665e03e3ce1a4165565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:18 +0000
Subject: [PATCH 66/90] fix: a program can include the public headers in
 several translation units

---
 include/Caitlyn/__Caitlyn/Application.h | 45 +++++++++++++++++++------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/include/Caitlyn/__Caitlyn/Application.h b/include/Caitlyn/__Caitlyn/Application.h
index aa3100c..275cfc4 100644
--- a/include/Caitlyn/__Caitlyn/Application.h
+++ b/include/Caitlyn/__Caitlyn/Application.h
@@ -33,26 +33,26 @@ class Application
 public:
     static const Application* Initialise()
     {
-        if (initialized_)
+        if (Initialized())
         {
             throw std::runtime_error("caitlyn::init can only be called once.");
         }
 
-        initialized_ = true;
-        return application_;
+        Initialized() = true;
+        return Instance();
     }
 
     static const Application* Initialize(const int& argc, const char** argv)
     {
-        if (initialized_)
+        if (Initialized())
         {
             throw std::runtime_error("caitlyn::init can only be called once.");
         }
 
-        application_->SetArgs(argc, argv);
-        initialized_ = true;
+        Instance()->SetArgs(argc, argv);
+        Initialized() = true;
 
-        return application_;
+        return Instance();
     }
 
     const std::vector<const char*>& GetArgs() const
@@ -117,17 +117,40 @@ private:
     }
 
 private:
-    static Application* application_;
-    static bool initialized_;
+    static Application* Instance()
+    {
+        static Application* application = new Application();
+        return application;
+    }
 
+    static bool& Initialized()
+    {
+        static bool initialized = false;
+        return initialized;
+    }
+
+private:
     const char* lib_version_;
     const char* system_name_;
     const char* compiler_;
     std::vector<const char*> args_{};
+
+public:
+    // Configures the console when the program starts
+    struct Startup
+    {
+        Startup()
+        {
+            Instance();
+        }
+    };
 };
 
-Application* Application::application_ = new Application();
-bool Application::initialized_ = false;
+__CAITLYN_DETAIL_NAMESPACE_BEGIN
+
+static const Application::Startup application_startup{};
+
+__CAITLYN_DETAIL_NAMESPACE_END
 
 __CAITLYN_GLOBAL_NAMESPACE_END
 
-- 
2.43.0


From b6d90fed277ac569387618408a35390c0d7da63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:18 +0000
Subject: [PATCH 67/90] fix: the version string ends with the patch version

---
 include/Caitlyn/__Caitlyn/Config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Caitlyn/Config.h b/include/Caitlyn/__Caitlyn/Config.h
index c12b652..95f8815 100644
--- a/include/Caitlyn/__Caitlyn/Config.h
+++ b/include/Caitlyn/__Caitlyn/Config.h
@@ -29,7 +29,7 @@
 
 #define __CAITLYN_VERSION                                                                                              \
     "Caitlyn " __CAITLYN_TOSTRING(__CAITLYN_MAJOR_VERSION__) "." __CAITLYN_TOSTRING(                                   \
-        __CAITLYN_MINOR_VERSION__) "." __CAITLYN_TOSTRING(__CAITLYN_MINOR_VERSION__)
+        __CAITLYN_MINOR_VERSION__) "." __CAITLYN_TOSTRING(__CAITLYN_PATCH_VERSION__)
 
 //Architecture
 #if defined(__i386__) || defined(_M_IX86) || defined(__32BIT__)
-- 
2.43.0


From e19a8847453e2e54b91046a56bf3ee4cb552f5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:07 +0000
Subject: [PATCH 68/90] fix: the library compiles as C++20

---
 include/Caitlyn/__Caitlyn/Types.h             | 2 +-
 include/Caitlyn/__Core/Traits/Types/Primary.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Caitlyn/Types.h b/include/Caitlyn/__Caitlyn/Types.h
index 5a4ea02..f2cac7e 100644
--- a/include/Caitlyn/__Caitlyn/Types.h
+++ b/include/Caitlyn/__Caitlyn/Types.h
@@ -26,7 +26,7 @@ __CAITLYN_DETAIL_NAMESPACE_BEGIN
 using __char_t = decltype('\0');
 using __wide_char_t = decltype(L'\0');
 #if __CAITLYN_HAS_CXX20
-using __utf8_char_t = decltype(u8 '\0');
+using __utf8_char_t = decltype(u8'\0');
 #else
 using __utf8_char_t = __char_t;
 #endif
diff --git a/include/Caitlyn/__Core/Traits/Types/Primary.h b/include/Caitlyn/__Core/Traits/Types/Primary.h
index 8bfe6b1..b8f47c3 100644
--- a/include/Caitlyn/__Core/Traits/Types/Primary.h
+++ b/include/Caitlyn/__Core/Traits/Types/Primary.h
@@ -68,7 +68,7 @@ struct __IsCharacter<wchar_t> : TrueType
 
 #if __CAITLYN_HAS_CXX20
 template <>
-struct __IsCharacterType<char8_t> : TrueType
+struct __IsCharacter<char8_t> : TrueType
 {
 };
 #endif
-- 
2.43.0


From 4d8d732dbc51b5f7bff5681fd0bfa56bdbabad8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:13 +0000
Subject: [PATCH 69/90] fix: the library compiles as C++23 with standard
 libraries without <generator> and <print>

---
 include/Caitlyn/__Core/Algorithms.h | 4 +++-
 include/Caitlyn/__Core/IO.h         | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Algorithms.h b/include/Caitlyn/__Core/Algorithms.h
index 54eac30..a583ea6 100644
--- a/include/Caitlyn/__Core/Algorithms.h
+++ b/include/Caitlyn/__Core/Algorithms.h
@@ -31,7 +31,9 @@
 #endif
 
 #if __CAITLYN_HAS_CXX23
-    #include <generator>
+    #if __has_include(<generator>)
+        #include <generator>
+    #endif
 #endif
 
 #endif // CAITLYN_CORE_ALGORITHMS_H_
diff --git a/include/Caitlyn/__Core/IO.h b/include/Caitlyn/__Core/IO.h
index 001f298..1c8ee64 100644
--- a/include/Caitlyn/__Core/IO.h
+++ b/include/Caitlyn/__Core/IO.h
@@ -32,7 +32,9 @@
 #endif
 
 #if __CAITLYN_HAS_CXX23
-    #include <print>
+    #if __has_include(<print>)
+        #include <print>
+    #endif
     #include <spanstream>
 #endif
 
-- 
2.43.0


From a523b84aea9a7789e83992428296527d1c3398cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:13 +0000
Subject: [PATCH 70/90] fix: Caitlyn/Utility provides the C++17 and C++20
 utilities

---
 include/Caitlyn/__Core/Utility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Utility.h b/include/Caitlyn/__Core/Utility.h
index 078a233..195e758 100644
--- a/include/Caitlyn/__Core/Utility.h
+++ b/include/Caitlyn/__Core/Utility.h
@@ -36,13 +36,13 @@
 #include "Caitlyn/__Core/Utility/Comparators.h"
 #include "Caitlyn/__Core/Utility/Random.h"
 
-#if __caitlyn_has_cxx17
+#if __CAITLYN_HAS_CXX17
     #include <any>
     #include <optional>
     #include <variant>
 #endif
 
-#if __caitlyn_has_cxx20
+#if __CAITLYN_HAS_CXX20
     #include <source_location>
     #include <version>
 #endif
-- 
2.43.0


From e60df4e35859e88cbce3c5c62cf31fb78381f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:23 +0000
Subject: [PATCH 71/90] fix: IsRValueReference recognises rvalue references

---
 include/Caitlyn/__Core/Traits/Constraints/Primary.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Traits/Constraints/Primary.h b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
index bb3d563..006f3ae 100644
--- a/include/Caitlyn/__Core/Traits/Constraints/Primary.h
+++ b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
@@ -109,7 +109,7 @@ constexpr Bool IsLValueReference()
 template <typename T>
 constexpr Bool IsRValueReference()
 {
-    return __Detail::__IsLValueReference<T>::Value;
+    return __Detail::__IsRValueReference<T>::Value;
 }
 
 template <typename T>
-- 
2.43.0


From 0fb6c06c55fa262a4ecd2dd5b059dbbb8ad247cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:23 +0000
Subject: [PATCH 72/90] fix: AlignmentOf, Rank and Extent return the number,
 not whether it is non-zero

---
 include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h b/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h
index ecb7625..5c68332 100644
--- a/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h
+++ b/include/Caitlyn/__Core/Traits/Constraints/PropertyQueries.h
@@ -25,19 +25,19 @@
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 
 template <typename T>
-constexpr Bool AlignmentOf()
+constexpr SizeType AlignmentOf()
 {
     return std::alignment_of<T>::value;
 }
 
 template <typename T>
-constexpr Bool Rank()
+constexpr SizeType Rank()
 {
     return std::rank<T>::value;
 }
 
 template <typename T>
-constexpr Bool Extent()
+constexpr SizeType Extent()
 {
     return std::extent<T>::value;
 }
-- 
2.43.0


From f7d08685e86604f7872ea9fdd2bfe5e3283e3f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:23 +0000
Subject: [PATCH 73/90] fix: HasBitwiseOrOperatorType looks for operator|,
 HasIStreamOperatorType reads into an lvalue

---
 include/Caitlyn/__Core/Traits/Types/Operators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Operators.h b/include/Caitlyn/__Core/Traits/Types/Operators.h
index 6d83593..98a60fc 100644
--- a/include/Caitlyn/__Core/Traits/Types/Operators.h
+++ b/include/Caitlyn/__Core/Traits/Types/Operators.h
@@ -160,7 +160,7 @@ struct HasBitwiseOrOperatorType : FalseType
 };
 
 template <typename T>
-struct HasBitwiseOrOperatorType<T, Indicator<decltype(std::declval<T>() & std::declval<T>())>> : TrueType
+struct HasBitwiseOrOperatorType<T, Indicator<decltype(std::declval<T>() | std::declval<T>())>> : TrueType
 {
 };
 
@@ -200,7 +200,7 @@ struct HasIStreamOperatorType : FalseType
 };
 
 template <typename T>
-struct HasIStreamOperatorType<T, Indicator<decltype(std::declval<std::istream&>() >> std::declval<T>())>> : TrueType
+struct HasIStreamOperatorType<T, Indicator<decltype(std::declval<std::istream&>() >> std::declval<T&>())>> : TrueType
 {
 };
 
-- 
2.43.0


From 06068f6c157df0e79fe9de802b9152ebff095c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:23 +0000
Subject: [PATCH 74/90] fix: IsCharacter, IsInteger, IsIntegral and IsFloating
 hold for const and volatile types

---
 include/Caitlyn/__Core/Traits/Constraints/Primary.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Constraints/Primary.h b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
index 006f3ae..bade596 100644
--- a/include/Caitlyn/__Core/Traits/Constraints/Primary.h
+++ b/include/Caitlyn/__Core/Traits/Constraints/Primary.h
@@ -43,25 +43,25 @@ constexpr Bool IsBoolean()
 template <typename T>
 constexpr Bool IsCharacter()
 {
-    return __Detail::__IsCharacter<T>::Value;
+    return __Detail::__IsCharacter<RemoveCVType<T>>::Value;
 }
 
 template <typename T>
 constexpr Bool IsInteger()
 {
-    return __Detail::__IsInteger<T>::Value;
+    return __Detail::__IsInteger<RemoveCVType<T>>::Value;
 }
 
 template <typename T>
 constexpr Bool IsIntegral()
 {
-    return __Detail::__IsCharacter<T>::Value || __Detail::__IsInteger<T>::Value || IsBooleanType<T>::Value;
+    return __Detail::__IsCharacter<RemoveCVType<T>>::Value || __Detail::__IsInteger<RemoveCVType<T>>::Value || IsBooleanType<T>::Value;
 }
 
 template <typename T>
 constexpr Bool IsFloating()
 {
-    return __Detail::__IsFloating<T>::Value;
+    return __Detail::__IsFloating<RemoveCVType<T>>::Value;
 }
 
 template <typename T>
-- 
2.43.0


From 0343348a273751d7579f25db1e803f8f741e10eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:23 +0000
Subject: [PATCH 75/90] fix: RemoveConstType keeps volatile and
 RemoveVolatileType keeps const

---
 .../Caitlyn/__Core/Traits/Types/Specifiers.h  | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Specifiers.h b/include/Caitlyn/__Core/Traits/Types/Specifiers.h
index 0f8d23c..09fce84 100644
--- a/include/Caitlyn/__Core/Traits/Types/Specifiers.h
+++ b/include/Caitlyn/__Core/Traits/Types/Specifiers.h
@@ -41,6 +41,30 @@ struct __AddCV
     using Type = const volatile T;
 };
 
+template <typename T>
+struct __RemoveConst
+{
+    using Type = T;
+};
+
+template <typename T>
+struct __RemoveConst<const T>
+{
+    using Type = T;
+};
+
+template <typename T>
+struct __RemoveVolatile
+{
+    using Type = T;
+};
+
+template <typename T>
+struct __RemoveVolatile<volatile T>
+{
+    using Type = T;
+};
+
 template <typename T>
 struct __RemoveCV
 {
@@ -77,10 +101,10 @@ template <typename T>
 using AddCVType = typename __Detail::__AddCV<T>::Type;
 
 template <typename T>
-using RemoveConstType = typename __Detail::__RemoveCV<const T>::Type;
+using RemoveConstType = typename __Detail::__RemoveConst<T>::Type;
 
 template <typename T>
-using RemoveVolatileType = typename __Detail::__RemoveCV<volatile T>::Type;
+using RemoveVolatileType = typename __Detail::__RemoveVolatile<T>::Type;
 
 template <typename T>
 using RemoveCVType = typename __Detail::__RemoveCV<T>::Type;
-- 
2.43.0


From d01fa1d60f41d39d33a5f93dc40ac5e14f85427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:23 +0000
Subject: [PATCH 76/90] fix: AddLValueReferenceType and AddPointerType of a
 reference

---
 include/Caitlyn/__Core/Traits/Types/Pointers.h   | 4 ++--
 include/Caitlyn/__Core/Traits/Types/References.h | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Pointers.h b/include/Caitlyn/__Core/Traits/Types/Pointers.h
index ad20df3..653725e 100644
--- a/include/Caitlyn/__Core/Traits/Types/Pointers.h
+++ b/include/Caitlyn/__Core/Traits/Types/Pointers.h
@@ -24,7 +24,7 @@ __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 __CAITLYN_DETAIL_NAMESPACE_BEGIN
 
 template <typename T>
-auto __TryAddPointer(T*) -> __TypeIdentity<RemoveReferenceType<T>*>;
+auto __TryAddPointer(int) -> __TypeIdentity<RemoveReferenceType<T>*>;
 
 template <typename T>
 auto __TryAddPointer(...) -> __TypeIdentity<T>;
@@ -62,7 +62,7 @@ struct __RemovePointer<T* const volatile>
 __CAITLYN_DETAIL_NAMESPACE_END
 
 template <typename T>
-using AddPointerType = typename decltype(__Detail::__TryAddPointer<T>(nullptr))::Type;
+using AddPointerType = typename decltype(__Detail::__TryAddPointer<T>(0))::Type;
 
 template <typename T>
 using RemovePointerType = typename __Detail::__RemovePointer<T>::Type;
diff --git a/include/Caitlyn/__Core/Traits/Types/References.h b/include/Caitlyn/__Core/Traits/Types/References.h
index effb246..868aba4 100644
--- a/include/Caitlyn/__Core/Traits/Types/References.h
+++ b/include/Caitlyn/__Core/Traits/Types/References.h
@@ -24,13 +24,13 @@ __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 __CAITLYN_DETAIL_NAMESPACE_BEGIN
 
 template <typename T>
-auto __TryAddLValueReference(T*) -> __TypeIdentity<T&>;
+auto __TryAddLValueReference(int) -> __TypeIdentity<T&>;
 
 template <typename T>
 auto __TryAddLValueReference(...) -> __TypeIdentity<T>;
 
 template <typename T>
-auto __TryAddRValueReference(T*) -> __TypeIdentity<T&&>;
+auto __TryAddRValueReference(int) -> __TypeIdentity<T&&>;
 
 template <typename T>
 auto __TryAddRValueReference(...) -> __TypeIdentity<T>;
@@ -56,10 +56,10 @@ struct __RemoveReference<T&&>
 __CAITLYN_DETAIL_NAMESPACE_END
 
 template <typename T>
-using AddLValueReferenceType = typename decltype(__Detail::__TryAddLValueReference<T>(nullptr))::Type;
+using AddLValueReferenceType = typename decltype(__Detail::__TryAddLValueReference<T>(0))::Type;
 
 template <typename T>
-using AddRValueReferenceType = typename decltype(__Detail::__TryAddRValueReference<T>(nullptr))::Type;
+using AddRValueReferenceType = typename decltype(__Detail::__TryAddRValueReference<T>(0))::Type;
 
 template <typename T>
 using RemoveReferenceType = typename __Detail::__RemoveReference<T>::Type;
-- 
2.43.0


From 5db53240555081a42c4fbc39be25d51f83fa9a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:23 +0000
Subject: [PATCH 77/90] fix: MakeSignedType and MakeUnsignedType of
 cv-qualified, wide character and enumeration types

---
 .../__Core/Traits/Types/SignModifiers.h       | 37 +++++++++++++++++--
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/SignModifiers.h b/include/Caitlyn/__Core/Traits/Types/SignModifiers.h
index 27bcaf3..1028cce 100644
--- a/include/Caitlyn/__Core/Traits/Types/SignModifiers.h
+++ b/include/Caitlyn/__Core/Traits/Types/SignModifiers.h
@@ -23,8 +23,37 @@
 __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 __CAITLYN_DETAIL_NAMESPACE_BEGIN
 
-template <typename>
-struct __MakeSigned
+template <typename T>
+struct __HasSignVariants
+    : BooleanConstant<std::is_enum<T>::value ||
+                      (std::is_integral<T>::value && !std::is_same<bool, typename std::remove_cv<T>::type>::value)>
+{
+};
+
+template <typename T, Bool = __HasSignVariants<T>::Value>
+struct __MakeSignedOther
+{
+};
+
+template <typename T>
+struct __MakeSignedOther<T, true>
+{
+    using Type = typename std::make_signed<T>::type;
+};
+
+template <typename T, Bool = __HasSignVariants<T>::Value>
+struct __MakeUnsignedOther
+{
+};
+
+template <typename T>
+struct __MakeUnsignedOther<T, true>
+{
+    using Type = typename std::make_unsigned<T>::type;
+};
+
+template <typename T>
+struct __MakeSigned : __MakeSignedOther<T>
 {
 };
 
@@ -94,8 +123,8 @@ struct __MakeSigned<long long>
     using Type = long long;
 };
 
-template <typename>
-struct __MakeUnsigned
+template <typename T>
+struct __MakeUnsigned : __MakeUnsignedOther<T>
 {
 };
 
-- 
2.43.0


From 8c7818924b78f269dd3163bfba33cdf3e5badf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:23 +0000
Subject: [PATCH 78/90] fix: IsSigned and IsUnsigned of types that are not
 arithmetic

---
 include/Caitlyn/__Core/Traits/Types/Properties.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/Traits/Types/Properties.h b/include/Caitlyn/__Core/Traits/Types/Properties.h
index 050dd3d..ce2b2a9 100644
--- a/include/Caitlyn/__Core/Traits/Types/Properties.h
+++ b/include/Caitlyn/__Core/Traits/Types/Properties.h
@@ -24,12 +24,12 @@ __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 __CAITLYN_TRAITS_NAMESPACE_BEGIN
 
 template <typename T>
-struct IsSignedType : BooleanConstant<std::is_arithmetic<T>::value && T(-1) < T(0)>
+struct IsSignedType : BooleanConstant<std::is_signed<T>::value>
 {
 };
 
 template <typename T>
-struct IsUnsignedType : BooleanConstant<std::is_arithmetic<T>::value && T(0) < T(-1)>
+struct IsUnsignedType : BooleanConstant<std::is_unsigned<T>::value>
 {
 };
 
-- 
2.43.0


From b8ec688cad094f19b562b41394153e5fa2af94f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:29 +0000
Subject: [PATCH 79/90] fix: Int8 and UInt8 values can be formatted

---
 include/Caitlyn/__Core/String/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 745bce7..15d8627 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -729,7 +729,7 @@ private:
         }
 
         template <typename T>
-        static Required<IsInteger<T>(), String> ToString(const T& value)
+        static Required<IsInteger<T>() && !IsCharacter<T>(), String> ToString(const T& value)
         {
             return std::to_string(value);
         }
-- 
2.43.0


From f460a32143682f73f2d55ac50d091c40e825bc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:36 +0000
Subject: [PATCH 80/90] fix: constructing a String from an iterator range
 compiles

---
 include/Caitlyn/__Core/String/String.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 15d8627..3c748b0 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -100,11 +100,7 @@ public:
     template <typename InputIt>
     String(InputIt first, InputIt last)
     {
-        while (first != last)
-        {
-            data_.emplace_back(decode_utf8_char(&(*first)));
-            ++first;
-        }
+        AppendRange(first, last, std::is_same<typename std::iterator_traits<InputIt>::value_type, ValueType>{});
     }
 
     // Copy constructor
@@ -997,6 +993,21 @@ private:
     };
 
 private:
+    // Range of bytes
+    template <typename InputIt>
+    void AppendRange(InputIt first, InputIt last, std::true_type)
+    {
+        const BasicString bytes(first, last);
+        Append(bytes.c_str());
+    }
+
+    // Range of characters or code points
+    template <typename InputIt>
+    void AppendRange(InputIt first, InputIt last, std::false_type)
+    {
+        data_.assign(first, last);
+    }
+
     static CharType DecodeUtf8Char(const char*& cstr)
     {
         SizeType len;
-- 
2.43.0


From f946e56b39295e87ad9dcb74bab0d8491d29cdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:56 +0000
Subject: [PATCH 81/90] fix: formatted floating values have a decimal point in
 every locale

---
 include/Caitlyn/__Core/String/String.h     | 7 ++++++-
 include/Caitlyn/__Numeric/Types/BigFloat.h | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 3c748b0..9857abb 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -21,6 +21,7 @@
 #include <algorithm>
 #include <bitset>
 #include <iterator>
+#include <locale>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -733,7 +734,11 @@ private:
         template <typename T>
         static Required<IsFloating<T>(), String> ToString(const T& value)
         {
-            return std::to_string(value);
+            // As std::to_string does, but with a decimal point in every locale
+            std::ostringstream oss;
+            oss.imbue(std::locale::classic());
+            oss << std::fixed << value;
+            return oss.str();
         }
 
         template <typename T>
diff --git a/include/Caitlyn/__Numeric/Types/BigFloat.h b/include/Caitlyn/__Numeric/Types/BigFloat.h
index 217dba4..69cc72e 100644
--- a/include/Caitlyn/__Numeric/Types/BigFloat.h
+++ b/include/Caitlyn/__Numeric/Types/BigFloat.h
@@ -30,7 +30,7 @@ public:
 public:
     BigFloat() = default;
 
-    BigFloat(const double value) : BigFloat{std::to_string(value)}
+    BigFloat(const double value) : BigFloat{String::Format("{}", value)}
     {
     }
 
-- 
2.43.0


From ec353e18a04cc91da4427cac412e95f83233d0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:41 +0000
Subject: [PATCH 82/90] fix: JSON floating numbers have a decimal point in
 every locale

---
 include/Caitlyn/__Serializing/Json/Types/JsonData.h  | 12 +++++++++++-
 .../Caitlyn/__Serializing/Json/Types/JsonParser.h    |  4 ++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 5834f84..65bfa17 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -372,6 +372,14 @@ public:
         return oss.str();
     }
 
+    // Reads the text of a JSON number, with a decimal point in every locale; false if it is out of range
+    static bool __internal_read(const std::string& text, FloatingType& value)
+    {
+        std::istringstream stream{text};
+        stream.imbue(std::locale::classic());
+        return static_cast<bool>(stream >> value);
+    }
+
     static JsonData __internal_make(const JsonClass type)
     {
         JsonData obj;
@@ -537,7 +545,9 @@ private:
             stream << value;
             text = stream.str();
 
-            if (std::strtof(text.c_str(), nullptr) == value)
+            FloatingType read;
+
+            if (__internal_read(text, read) && read == value)
             {
                 break;
             }
diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 827b79f..f602830 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -464,9 +464,9 @@ private:
                 number_str.Find(Def::LatinSmallLetterE) != String::NPosition ||
                 number_str.Find(Def::LatinCapitalLetterE) != String::NPosition)
             {
-                const JsonData::FloatingType value = std::strtof(number_str.str().c_str(), nullptr);
+                JsonData::FloatingType value;
 
-                if (std::isinf(value))
+                if (!JsonData::__internal_read(number_str.str(), value))
                 {
                     throw std::out_of_range{"Number out of range"};
                 }
-- 
2.43.0


From 2db85829658b1920d9e31b7b3fe6e7d5cd3392fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:54 +0000
Subject: [PATCH 83/90] fix: SharedPtr neither leaks nor dangles when its
 counter cannot be allocated

---
 .../__Core/Memory/Types/SharedPointer.h        | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
index 04c2aef..7c78194 100644
--- a/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/SharedPointer.h
@@ -52,8 +52,20 @@ public:
 public:
     SharedPtr() = default;
 
-    SharedPtr(Pointer data) : data_{data}, ref_count_{data ? new Counter(1) : nullptr}
+    SharedPtr(Pointer data) : data_{data}
     {
+        if (data)
+        {
+            try
+            {
+                ref_count_ = new Counter(1);
+            }
+            catch (...)
+            {
+                delete data; // nobody else owns it
+                throw;
+            }
+        }
     }
 
     SharedPtr(const SharedPtr& other) : data_{other.data_}, ref_count_{other.ref_count_}
@@ -161,9 +173,7 @@ public:
     {
         if (data_ != data)
         {
-            Release();
-            data_ = data;
-            ref_count_ = data ? new Counter(1) : nullptr;
+            *this = SharedPtr{data};
         }
     }
 
-- 
2.43.0


From 13e4a472fb3fa9e99826ad56c3dc02f0ab28fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:50 +0000
Subject: [PATCH 84/90] fix: JsonData neither leaks nor breaks when an
 allocation fails

---
 .../__Serializing/Json/Types/JsonData.h       | 42 +++++++++++--------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 65bfa17..2a6da73 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -21,9 +21,9 @@
 #include <algorithm>
 #include <cmath>
 #include <cstdlib>
-#include <deque>
 #include <limits>
 #include <locale>
+#include <memory>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -41,7 +41,7 @@ __CAITLYN_DETAIL_NAMESPACE_BEGIN
 class JsonData
 {
 public:
-    using ArrayType = std::deque<JsonData*>;
+    using ArrayType = std::vector<JsonData*>;
     using ObjectType = std::vector<std::pair<String, JsonData*>>;
     using StringType = String;
     using NullType = NullPtr;
@@ -55,7 +55,7 @@ public:
         new (&data_.null_value) NullType(nullptr);
     }
 
-    JsonData(const JsonData& other) : type_(other.type_)
+    JsonData(const JsonData& other) : JsonData()
     {
         CopyUnion(other);
     }
@@ -182,8 +182,9 @@ public:
 
         if (it == object.end())
         {
-            object.emplace_back(key, new JsonData());
-            return *object.back().second;
+            std::unique_ptr<JsonData> member{new JsonData()};
+            object.emplace_back(key, member.get());
+            return *member.release();
         }
         return *it->second;
     }
@@ -196,7 +197,7 @@ public:
         {
             while (array.size() <= index)
             {
-                array.emplace_back(new JsonData{});
+                AddItem(JsonData{});
             }
         }
         return *array[index];
@@ -249,7 +250,7 @@ public:
         {
             SetType(JsonClass::Array);
         }
-        data_.array_value.emplace_back(new JsonData{arg});
+        AddItem(JsonData{arg});
     }
 
     template <typename T, typename... Args>
@@ -559,37 +560,42 @@ private:
         oss << text;
     }
 
+    void AddItem(JsonData&& value)
+    {
+        std::unique_ptr<JsonData> item{new JsonData{std::move(value)}};
+        data_.array_value.emplace_back(item.get());
+        item.release();
+    }
+
     void CopyUnion(const JsonData& other)
     {
+        SetType(other.type_);
         switch (other.type_)
         {
-            case JsonClass::Null:
-                new (&data_.null_value) NullType(nullptr);
-                break;
             case JsonClass::String:
-                new (&data_.string_value) StringType(other.data_.string_value);
+                data_.string_value = other.data_.string_value;
                 break;
             case JsonClass::Floating:
-                new (&data_.floating_value) FloatingType(other.data_.floating_value);
+                data_.floating_value = other.data_.floating_value;
                 break;
             case JsonClass::Integral:
-                new (&data_.integral_value) IntegralType(other.data_.integral_value);
+                data_.integral_value = other.data_.integral_value;
                 break;
             case JsonClass::Boolean:
-                new (&data_.boolean_value) BooleanType(other.data_.boolean_value);
+                data_.boolean_value = other.data_.boolean_value;
                 break;
             case JsonClass::Array:
-                new (&data_.array_value) ArrayType();
                 for (const auto* item : other.data_.array_value)
                 {
-                    data_.array_value.emplace_back(new JsonData{*item});
+                    AddItem(JsonData{*item});
                 }
                 break;
             case JsonClass::Object:
-                new (&data_.object_value) ObjectType();
                 for (const auto& item : other.data_.object_value)
                 {
-                    data_.object_value.emplace_back(item.first, new JsonData{*item.second});
+                    std::unique_ptr<JsonData> member{new JsonData{*item.second}};
+                    data_.object_value.emplace_back(item.first, member.get());
+                    member.release();
                 }
                 break;
             default:
-- 
2.43.0


From 3967eaa188fd1e30c4461d10bbf2847c945974f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:50 +0000
Subject: [PATCH 85/90] fix: JSON text is not cut short when an allocation
 fails

---
 include/Caitlyn/__Serializing/Json/Types/Json.h       | 9 +++------
 include/Caitlyn/__Serializing/Json/Types/JsonData.h   | 3 +++
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 1 +
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/Json.h b/include/Caitlyn/__Serializing/Json/Types/Json.h
index 2dedbcc..533b7ff 100644
--- a/include/Caitlyn/__Serializing/Json/Types/Json.h
+++ b/include/Caitlyn/__Serializing/Json/Types/Json.h
@@ -19,6 +19,7 @@
 #define CAITLYN_SERIALIZING_JSON_TYPES_DOCUMENT_H_
 
 #include <fstream>
+#include <iterator>
 
 #include "Caitlyn/__Serializing/Json/Types/JsonParser.h"
 #include "Caitlyn/__Serializing/Json/Utility.h"
@@ -121,9 +122,7 @@ public:
 
     void Parse(const std::ifstream& ifs)
     {
-        std::ostringstream buffer;
-        buffer << ifs.rdbuf();
-        Parse(buffer.str());
+        Parse(std::string{std::istreambuf_iterator<char>{ifs.rdbuf()}, std::istreambuf_iterator<char>{}});
     }
 
     void AddMember(const String& key, const DataType& value)
@@ -217,9 +216,7 @@ __CAITLYN_GLOBAL_NAMESPACE_END
 
 inline std::istream& operator>>(std::istream& is, Caitlyn::JsonDocument& value)
 {
-    std::ostringstream buffer;
-    buffer << is.rdbuf();
-    value.Parse(buffer.str());
+    value.Parse(std::string{std::istreambuf_iterator<char>{is.rdbuf()}, std::istreambuf_iterator<char>{}});
     return is;
 }
 
diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonData.h b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
index 2a6da73..d8e8fcf 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonData.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonData.h
@@ -368,6 +368,7 @@ public:
     StringType ToString(const BooleanType mangling = false, const SizeType indent = 2) const
     {
         std::ostringstream oss;
+        oss.exceptions(std::ios_base::badbit); // a failed allocation must not truncate the text
         oss.imbue(std::locale::classic());
         MakeOutput(oss, mangling, indent, indent);
         return oss.str();
@@ -377,6 +378,7 @@ public:
     static bool __internal_read(const std::string& text, FloatingType& value)
     {
         std::istringstream stream{text};
+        stream.exceptions(std::ios_base::badbit); // a failed allocation must not truncate the text
         stream.imbue(std::locale::classic());
         return static_cast<bool>(stream >> value);
     }
@@ -541,6 +543,7 @@ private:
              ++precision)
         {
             std::ostringstream stream;
+            stream.exceptions(std::ios_base::badbit); // a failed allocation must not truncate the text
             stream.imbue(std::locale::classic());
             stream.precision(precision);
             stream << value;
diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index f602830..630de0e 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -286,6 +286,7 @@ private:
     {
         Next();
         std::ostringstream escaped_stream;
+        escaped_stream.exceptions(std::ios_base::badbit); // a failed allocation must not truncate the text
 
         while (position_ < json_.size() && json_[position_] != Def::QuotationMark)
         {
-- 
2.43.0


From 325850e97391f1d9e709ecb924323da86cc04146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:50 +0000
Subject: [PATCH 86/90] fix: StringBuilder text is not cut short when an
 allocation fails

---
 include/Caitlyn/__Core/String/StringBuilder.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/Caitlyn/__Core/String/StringBuilder.h b/include/Caitlyn/__Core/String/StringBuilder.h
index b2b5ec9..3c1896d 100644
--- a/include/Caitlyn/__Core/String/StringBuilder.h
+++ b/include/Caitlyn/__Core/String/StringBuilder.h
@@ -28,31 +28,35 @@ public:
     using data_type = std::ostringstream;
 
 public:
-    StringBuilder() = default;
+    StringBuilder()
+    {
+        data_.exceptions(std::ios_base::badbit); // a failed allocation must not truncate the text
+    }
 
-    StringBuilder(const char str)
+    StringBuilder(const char str) : StringBuilder{}
     {
         data_ << str;
     }
 
-    StringBuilder(const char* str)
+    StringBuilder(const char* str) : StringBuilder{}
     {
         data_ << str;
     }
 
-    StringBuilder(const String& str)
+    StringBuilder(const String& str) : StringBuilder{}
     {
         data_ << str;
     }
 
     template <typename... Args>
-    StringBuilder(const String& str, Args&&... args)
+    StringBuilder(const String& str, Args&&... args) : StringBuilder{}
     {
         data_ << String::Format(str, std::forward<Args>(args)...);
     }
 
     StringBuilder(const StringBuilder& other) : data_{other.data_.str(), std::ios_base::out | std::ios_base::ate}
     {
+        data_.exceptions(std::ios_base::badbit);
     }
 
     StringBuilder(StringBuilder&& other) noexcept : data_{std::move(other.data_)}
-- 
2.43.0


From 7b49058b65c4765fb56027e0680f770e41580c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:50 +0000
Subject: [PATCH 87/90] fix: String, Char and File text is not cut short when
 an allocation fails

---
 include/Caitlyn/__Core/Char/Char.h      | 1 +
 include/Caitlyn/__Core/File/File.h      | 1 +
 include/Caitlyn/__Core/String/String.h  | 4 ++++
 include/Caitlyn/__Core/String/Utility.h | 3 +++
 4 files changed, 9 insertions(+)

diff --git a/include/Caitlyn/__Core/Char/Char.h b/include/Caitlyn/__Core/Char/Char.h
index 80d0836..92dae74 100644
--- a/include/Caitlyn/__Core/Char/Char.h
+++ b/include/Caitlyn/__Core/Char/Char.h
@@ -210,6 +210,7 @@ private:
             return DataType{static_cast<char>(codePoint)};
         }
         std::ostringstream oss;
+        oss.exceptions(std::ios_base::badbit); // a failed allocation must not truncate the text
 
         if (length == 2)
         {
diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 9c763f8..2e543cb 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -157,6 +157,7 @@ public:
         file_.seekg(currentPosition_, std::ios::beg);
 
         std::ostringstream result;
+        result.exceptions(std::ios_base::badbit); // a failed allocation must not truncate the text
         char ch;
         while (file_.get(ch))
         {
diff --git a/include/Caitlyn/__Core/String/String.h b/include/Caitlyn/__Core/String/String.h
index 9857abb..c4357f8 100644
--- a/include/Caitlyn/__Core/String/String.h
+++ b/include/Caitlyn/__Core/String/String.h
@@ -478,6 +478,7 @@ public:
     std::basic_string<char> str() const
     {
         std::ostringstream oss;
+        oss.exceptions(std::ios_base::badbit); // a failed allocation must not truncate the text
 
         for (const auto& elem : data_)
         {
@@ -571,6 +572,7 @@ public:
         const std::vector<String> arguments{Formatter::ToString(std::forward<Args>(args))...};
 
         std::ostringstream result;
+        result.exceptions(std::ios_base::badbit); // a failed allocation must not truncate the text
         SizeType auto_index = 0;
         SizeType pos = 0;
 
@@ -736,6 +738,7 @@ private:
         {
             // As std::to_string does, but with a decimal point in every locale
             std::ostringstream oss;
+            oss.exceptions(std::ios_base::badbit); // a failed allocation must not truncate the text
             oss.imbue(std::locale::classic());
             oss << std::fixed << value;
             return oss.str();
@@ -929,6 +932,7 @@ private:
         static String ProcessFloating(const String& value, const FormatSpecifier& spec)
         {
             std::ostringstream oss;
+            oss.exceptions(std::ios_base::badbit); // a failed allocation must not truncate the text
             const auto dot_index = value.Find(Def::FullStop);
 
             if (spec.precision < 0)
diff --git a/include/Caitlyn/__Core/String/Utility.h b/include/Caitlyn/__Core/String/Utility.h
index d1da937..6eb2486 100644
--- a/include/Caitlyn/__Core/String/Utility.h
+++ b/include/Caitlyn/__Core/String/Utility.h
@@ -30,6 +30,7 @@ __CAITLYN_GLOBAL_NAMESPACE_BEGIN
 inline std::vector<std::string> Split(const std::string& text, const char delim)
 {
     std::stringstream ss{text};
+    ss.exceptions(std::ios_base::badbit); // a failed allocation must not truncate the text
     std::string item;
     std::vector<std::string> data;
 
@@ -43,6 +44,7 @@ inline std::vector<std::string> Split(const std::string& text, const char delim)
 inline std::string Repeat(const std::string& str, const size_t count)
 {
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit); // a failed allocation must not truncate the text
     for (size_t i = 0; i < count; ++i)
     {
         ss << str;
@@ -78,6 +80,7 @@ __CAITLYN_DETAIL_NAMESPACE_END
 inline String EscapeString(const String& str)
 {
     std::ostringstream oss;
+    oss.exceptions(std::ios_base::badbit); // a failed allocation must not truncate the text
 
     for (size_t i = 0; i < str.size(); ++i)
     {
-- 
2.43.0


From 38f651b24385300f5b0904c2816920b7c0ff66c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:10 +0000
Subject: [PATCH 88/90] fix: JSON parser does not report a failed allocation as
 an invalid number

---
 include/Caitlyn/__Serializing/Json/Types/JsonParser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
index 630de0e..4fb653a 100644
--- a/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
+++ b/include/Caitlyn/__Serializing/Json/Types/JsonParser.h
@@ -484,7 +484,7 @@ private:
             SetErrorPosition(position_);
             return JsonData{};
         }
-        catch (const std::exception&)
+        catch (const std::invalid_argument&)
         {
             SetError(JsonError::InvalidNumber);
             SetErrorPosition(position_);
-- 
2.43.0


From 86ccf9c04ab1f6f66ba7eb1cb163cdc86befd2ff Mon Sep 17 00:00:00 2001
From: verif <verif@x>
Date: Thu, 19 Nov 2026 03:29:33 +0000
Subject: [PATCH 89/90] fix: File does not report failed writes and reads

---
 include/Caitlyn/__Core/File/File.h | 59 +++++++++++++++++-------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/include/Caitlyn/__Core/File/File.h b/include/Caitlyn/__Core/File/File.h
index 2e543cb..5155bc8 100644
--- a/include/Caitlyn/__Core/File/File.h
+++ b/include/Caitlyn/__Core/File/File.h
@@ -136,7 +136,7 @@ public:
         {
             return std::basic_string<char>(buffer.begin(), buffer.end());
         }
-        return {};
+        throw std::ios_base::failure{"Stream failed while reading."};
     }
 
     String ReadLine(const char delim = Def::LineFeed[0])
@@ -185,14 +185,14 @@ public:
     {
         PrepareToWrite();
         file_ << data;
-        file_.flush();
+        FinishWrite();
     }
 
     void Write(const String& data)
     {
         PrepareToWrite();
         file_ << data;
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
@@ -200,7 +200,7 @@ public:
     {
         PrepareToWrite();
         file_ << data.to_string();
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
@@ -208,7 +208,7 @@ public:
     {
         PrepareToWrite();
         file_ << data.str();
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
@@ -216,7 +216,7 @@ public:
     {
         PrepareToWrite();
         file_ << data.ToString();
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename... Args>
@@ -224,21 +224,21 @@ public:
     {
         PrepareToWrite();
         file_ << String::Format(str, std::forward<Args>(args)...);
-        file_.flush();
+        FinishWrite();
     }
 
     void WriteLine(const char* data)
     {
         PrepareToWrite();
         file_ << data << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     void WriteLine(const String& data)
     {
         PrepareToWrite();
         file_ << data << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
@@ -246,7 +246,7 @@ public:
     {
         PrepareToWrite();
         file_ << data.to_string() << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
@@ -254,7 +254,7 @@ public:
     {
         PrepareToWrite();
         file_ << data.str() << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
@@ -262,7 +262,7 @@ public:
     {
         PrepareToWrite();
         file_ << data.ToString() << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename... Args>
@@ -270,7 +270,7 @@ public:
     {
         PrepareToWrite();
         file_ << String::Format(str, std::forward<Args>(args)...) << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     void Append(const char* data)
@@ -278,7 +278,7 @@ public:
         PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << data;
-        file_.flush();
+        FinishWrite();
     }
 
     void Append(const String& data)
@@ -286,7 +286,7 @@ public:
         PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << data;
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
@@ -295,7 +295,7 @@ public:
         PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.to_string();
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
@@ -304,7 +304,7 @@ public:
         PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.str();
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
@@ -313,7 +313,7 @@ public:
         PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.ToString();
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename... Args>
@@ -322,7 +322,7 @@ public:
         PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << String::Format(str, std::forward<Args>(args)...);
-        file_.flush();
+        FinishWrite();
     }
 
     void AppendLine(const char* data)
@@ -330,7 +330,7 @@ public:
         PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << data << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     void AppendLine(const String& data)
@@ -338,7 +338,7 @@ public:
         PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << data << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
@@ -347,7 +347,7 @@ public:
         PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.to_string() << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
@@ -356,7 +356,7 @@ public:
         PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.str() << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename T>
@@ -365,7 +365,7 @@ public:
         PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << data.ToString() << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
     template <typename... Args>
@@ -374,7 +374,7 @@ public:
         PrepareToWrite();
         file_.seekp(0, std::ios::end);
         file_ << String::Format(str, std::forward<Args>(args)...) << Def::LineFeed;
-        file_.flush();
+        FinishWrite();
     }
 
 private:
@@ -387,6 +387,15 @@ private:
         file_.clear(); // the end of the file may have been reached while reading
     }
 
+    void FinishWrite()
+    {
+        file_.flush();
+        if (file_.fail())
+        {
+            throw std::ios_base::failure{"Failed to write to the file."};
+        }
+    }
+
     std::basic_string<char> GetFilename() const
     {
         return filename_.str();
-- 
2.43.0


From 3ac9036006526bafe638d3a589cfd801ba13d458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:54 +0000
Subject: [PATCH 90/90] fix: UniquePtr::Reset stores the new pointer before
 destroying the old object

---
 include/Caitlyn/__Core/Memory/Types/UniquePointer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
index 5589777..13d1a5a 100644
--- a/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
+++ b/include/Caitlyn/__Core/Memory/Types/UniquePointer.h
@@ -120,8 +120,9 @@ public:
     {
         if (data_ != new_data)
         {
-            delete data_;
+            const Pointer previous = data_; // its destructor may use this pointer
             data_ = new_data;
+            delete previous;
         }
     }
 
-- 
2.43.0

