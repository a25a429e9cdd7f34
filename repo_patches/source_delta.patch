From 45c39564bd5a2bf05cfbe43547aa50ea36ae5329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:38 +0000
Subject: [PATCH 01/31] fix: include <limits>, which the generated numeric code
 uses

---
 source/cpp/protogen.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index c330d97..bfec041 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -29,6 +29,7 @@
 #include <memory>
 #include <algorithm>
 #include <cmath>
+#include <limits>
 
 namespace protogen_X_Y_Z {
 
-- 
2.43.0


From eff58ddb11009cd43075e69bb2e332ca26482338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:38 +0000
Subject: [PATCH 02/31] fix: deserialize_array from a const buffer must use a
 const iterator

---
 source/cpp/json-array.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index 005acd2..a15479c 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -107,9 +107,9 @@ bool deserialize_array( T& container, const std::string &in, Parameters *params
 template<typename T, typename std::enable_if<is_container<T>::value, int>::type = 0>
 bool deserialize_array( T& container, const char *in, size_t len, Parameters *params = nullptr )
 {
-    auto begin = mem_iterator<char>(in, len);
-    auto end = mem_iterator<char>(in + len, 0);
-    iterator_istream<mem_iterator<char>> is(begin, end);
+    auto begin = mem_const_iterator<char>(in, len);
+    auto end = mem_const_iterator<char>(in + len, 0);
+    iterator_istream<mem_const_iterator<char>> is(begin, end);
     return deserialize_array(container, is, params);
 }
 
-- 
2.43.0


From 21edbeb6df5aaf9b3e3832df669379ba7def40cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 03/31] fix: serializing to a memory buffer must not skip its
 first byte

---
 source/cpp/protogen.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index bfec041..80288f3 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -124,18 +124,19 @@ class iterator_ostream : public ostream
         }
         ostream & operator<<( char value ) override
         {
-            *++beg_ = value;
+            *beg_ = value;
+            ++beg_;
             return *this;
         }
         ostream & operator<<( const std::string &value ) override
         {
             for (auto it = value.begin(); it != value.end(); ++it)
-                *++beg_ = *it;
+                *this << *it;
             return *this;
         }
         ostream & operator<<( const char *value ) override
         {
-            while (*value != 0) *++beg_ = *value++;
+            while (*value != 0) *this << *value++;
             return *this;
         }
         ostream & operator<<( char *value ) override { return *this << (const char*) value; }
-- 
2.43.0


From 03dcab261512df0af79d2c016ddce5857e556a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 04/31] fix: accept \u escapes below U+0080 in JSON strings

---
 source/cpp/protogen.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 80288f3..5c904da 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -488,6 +488,10 @@ class tokenizer
                 value += (char) (0x80 | (codepoint & 0x3F));
             }
             else
+            // 1-byte UTF-8 = 0xxxxxxx
+            if (codepoint < 0x80)
+                value += (char) codepoint;
+            else
             // 2-byte UTF-8 = 110xxxxx 10xxxxxx
             if (codepoint >= 0x80 && codepoint <= 0x7FF)
             {
-- 
2.43.0


From 0fe3f0bea489bc631c934bb593978bdda1c09012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 05/31] fix: reject JSON strings with an unpaired surrogate
 instead of dropping it

---
 source/cpp/protogen.hh | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 5c904da..172fc1f 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -413,6 +413,9 @@ class tokenizer
             {
                 input_.next();
                 int c = input_.peek();
+                // only an escaped trail can follow an escaped lead
+                if (lead != 0 && c != '\\')
+                    goto ESCAPE;
                 if (c == '"')
                 {
                     input_.next();
@@ -422,6 +425,8 @@ class tokenizer
                 {
                     input_.next();
                     c = input_.peek();
+                    if (lead != 0 && c != 'u')
+                        goto ESCAPE;
                     switch (c)
                     {
                         case '"':  value += '"'; break;
@@ -464,6 +469,10 @@ class tokenizer
             }
             int32_t codepoint = (int32_t) strtol(temp, nullptr, 16);
 
+            // a lead must be followed by the second value in the surrogate pair
+            if (lead != 0 && (codepoint < 0xDC00 || codepoint > 0xDFFF))
+                return false;
+
             // first value in UTF-16 surrogate pair
             if (codepoint >= 0xD800 && codepoint <= 0xDBFF)
             {
-- 
2.43.0


From 21731ce4e5ffb113a142126a7debe060c1a725f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 06/31] fix: string tokens must carry their position, for error
 reports

---
 source/cpp/protogen.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 172fc1f..a7f5e5b 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -419,7 +419,7 @@ class tokenizer
                 if (c == '"')
                 {
                     input_.next();
-                    return token(token_id::STRING, value);
+                    return token(token_id::STRING, value, line, column);
                 }
                 if (c == '\\')
                 {
-- 
2.43.0


From 8d7ded0135b7962d2c3858bf1c718963e5c90698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 07/31] fix: escape control characters in JSON strings

---
 source/cpp/json-string.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 7d21daa..54a0286 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -76,7 +76,11 @@ struct json<std::string, void>
                     case '\r': (*ctx.os) <<  "\\r"; break;
                     case '\n': (*ctx.os) <<  "\\n"; break;
                     case '\t': (*ctx.os) <<  "\\t"; break;
-                    default:   (*ctx.os) << (char) byte1;
+                    default:
+                        if (byte1 < 0x20)
+                            write_escaped_utf8(ctx.os, byte1);
+                        else
+                            (*ctx.os) << (char) byte1;
                 }
                 i++;
             }
-- 
2.43.0


From 404c3cd3d43ee8b9ec75943d801ba926ffb56d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 08/31] fix: reading null must leave a string field empty

---
 source/cpp/json-string.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 54a0286..96e831d 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -164,7 +164,8 @@ struct json<string_field, void>
         temp.clear();
         int result = json<std::string, void>::read(ctx, temp);
         value.empty(result == PGR_NIL);
-        value = temp;
+        if (result != PGR_NIL)
+            value = temp;
         return result;
     }
     static int write( json_context &ctx, const string_field &value )
-- 
2.43.0


From 35479506480be8498794b7f5f5709bc372754a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 09/31] fix: assigning an empty field must not keep the old
 value

---
 source/cpp/json-number.hh | 2 +-
 source/cpp/json-string.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index b03d57e..5ae3c5d 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -20,7 +20,7 @@ template<typename T> class field
         void swap( T &that ) { std::swap(this->value_, that); empty_ = false; }
         bool empty() const { return empty_; }
         void clear() { value_ = (T) 0; empty_ = true; }
-        field<T> &operator=( const field<T> &that ) { this->empty_ = that.empty_; if (!empty_) this->value_ = that.value_; return *this; }
+        field<T> &operator=( const field<T> &that ) { this->empty_ = that.empty_; this->value_ = that.value_; return *this; }
         field<T> &operator=( const T &that ) { this->empty_ = false; this->value_ = that; return *this; }
         bool operator==( const T &that ) const { return !this->empty_ && this->value_ == that; }
         bool operator!=( const T &that ) const { return !this->empty_ && this->value_ != that; }
diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 96e831d..5f0d1d3 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -22,7 +22,7 @@ class string_field
         bool empty() const { return null_ && value_.empty(); }
         void empty(bool state) { null_ = state; if (state) value_.clear(); }
         void clear() { value_.clear(); null_ = true; }
-        string_field &operator=( const string_field &that ) { this->null_ = that.null_; if (!null_) this->value_ = that.value_; return *this; }
+        string_field &operator=( const string_field &that ) { this->null_ = that.null_; this->value_ = that.value_; return *this; }
         string_field &operator=( const value_type &that ) { this->null_ = false; this->value_ = that; return *this; }
         string_field &operator=( const char *that ) { this->null_ = false; this->value_ = that; return *this; }
         bool operator==( const char *that ) const { return !this->null_ && this->value_ == that; }
-- 
2.43.0


From 798219e69b6e2457f4630bed32365a3a0bc0cd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 10/31] fix: write floating-point numbers with enough digits to
 restore them

---
 source/cpp/json-number.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index 5ae3c5d..847c837 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -79,13 +79,13 @@ std::string number_to_string( const T &value )
 #if defined(_WIN32) || defined(_WIN64)
     static _locale_t loc = _create_locale(LC_NUMERIC, "C");
     if (loc == nullptr) return "0";
-    _snprintf_l(tmp, sizeof(tmp) - 1, "%f", loc, value);
+    _snprintf_l(tmp, sizeof(tmp) - 1, "%.*g", loc, std::numeric_limits<T>::max_digits10, value);
 #else
     static locale_t loc = newlocale(LC_NUMERIC_MASK, "C", 0);
     if (loc == 0) return "0";
     locale_t old = uselocale(loc);
     if (old == 0) return "0";
-    snprintf(tmp, sizeof(tmp) - 1, "%f", value);
+    snprintf(tmp, sizeof(tmp) - 1, "%.*g", std::numeric_limits<T>::max_digits10, value);
     uselocale(old);
 #endif
     tmp[sizeof(tmp) - 1] = 0;
-- 
2.43.0


From dada40e4a9af9e33d2bdf1765a9a8772fbc0c3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 11/31] fix: report the failure to serialize a nested value

---
 source/cpp/code.txt      | 2 +-
 source/cpp/json-array.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cpp/code.txt b/source/cpp/code.txt
index ec525ea..dd92e98 100644
--- a/source/cpp/code.txt
+++ b/source/cpp/code.txt
@@ -102,7 +102,7 @@ template<> struct json<$2$>
 ------
 
 --- CODE_JSON__WRITE__ITEM
-        if (ctx.params.serialize_null || !json<decltype(value.$1$)>::empty(value.$1$)) { (*ctx.os) << (f?"\"":",\"") << $2$ << "\":"; json<decltype(value.$1$)>::write(ctx, value.$1$); f=false; }
+        if (ctx.params.serialize_null || !json<decltype(value.$1$)>::empty(value.$1$)) { (*ctx.os) << (f?"\"":",\"") << $2$ << "\":"; if (json<decltype(value.$1$)>::write(ctx, value.$1$) != PGR_OK) return PGR_ERROR; f=false; }
 ------
 
 --- CODE_JSON__WRITE__FOOTER
diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index a15479c..d007117 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -65,7 +65,7 @@ struct json<T, typename std::enable_if<is_container<T>::value>::type >
         size_t i = 0, t = value.size();
         for (auto it = value.begin(); it != value.end(); ++it, ++i)
         {
-            json<typename T::value_type>::write(ctx, *it);
+            if (json<typename T::value_type>::write(ctx, *it) != PGR_OK) return PGR_ERROR;
             if (i + 1 < t) (*ctx.os) <<  ',';
         }
         (*ctx.os) <<  ']';
-- 
2.43.0


From bd6dff7af9b480ddb1c25203a7d9047920fe1826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:22 +0000
Subject: [PATCH 12/31] fix: skip null array elements instead of failing on
 them

---
 source/cpp/json-array.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index d007117..4ca7a60 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -48,6 +48,7 @@ struct json<T, typename std::enable_if<is_container<T>::value>::type >
                 int result = json<typename T::value_type>::read(ctx, temp);
                 if (result == PGR_ERROR) return result;
                 if (result == PGR_OK) value.push_back(temp);
+                if (result == PGR_NIL) ctx.tok->next();
 
                 if (!ctx.tok->expect(token_id::COMMA))
                 {
-- 
2.43.0


From 6deff5e2b9a79efbd4ce99c1fff53b9689555b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 13/31] fix: reject malformed base64 data instead of accepting
 it silently

---
 source/cpp/json-base64.hh | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/source/cpp/json-base64.hh b/source/cpp/json-base64.hh
index 78226c3..c053cec 100644
--- a/source/cpp/json-base64.hh
+++ b/source/cpp/json-base64.hh
@@ -19,7 +19,7 @@ struct json< std::vector<uint8_t> >
         if (ch >= 'A' && ch <= 'Z') return ch - 'A';
         if (ch >= 'a' && ch <= 'z') return (ch - 'a') + 26;
         if (ch == '=') return 64;
-        return 0;
+        return -1;
     }
     static int write( json_context &ctx, const std::vector<uint8_t> &value )
     {
@@ -66,22 +66,28 @@ struct json< std::vector<uint8_t> >
         size_t k = 0;
         int s[4];
         std::string text = ctx.tok->peek().value;
-        ctx.tok->next();
         const char *ptr = text.c_str();
+        const char *end = ptr + text.length();
 
         while (true)
         {
             // read 4 characters
             for (size_t j = 0; j < 4; ++j)
             {
-                int ch = *ptr++;
-                if (ch == 0)
+                if (ptr == end)
                 {
-                    if (j != 0) ctx.tok->error(error_code::PGERR_INVALID_OBJECT, "invalid base64 data");
+                    if (j != 0) return ctx.tok->error(error_code::PGERR_INVALID_OBJECT, "invalid base64 data");
+                    ctx.tok->next();
                     return PGR_OK;
                 }
+                int ch = *ptr++;
                 s[j] = b64_int(ch);
+                if (s[j] < 0)
+                    return ctx.tok->error(error_code::PGERR_INVALID_OBJECT, "invalid base64 data");
             }
+            // padding is valid only at the end of the data
+            if (s[0] == 64 || s[1] == 64 || (s[2] == 64 && s[3] != 64) || (s[3] == 64 && ptr != end))
+                return ctx.tok->error(error_code::PGERR_INVALID_OBJECT, "invalid base64 data");
             // decode base64 tuple
             value.push_back( (uint8_t) (((s[0] & 0xFF) << 2 ) | ((s[1] & 0x30) >> 4)) );
             if (s[2] != 64)
-- 
2.43.0


From 9ae0ed2bc303d79e24894d8e63c47c45ec659957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 14/31] fix: messages with a bytes field need the base64
 serializer

---
 source/cpp/cppgen.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 74fb78b..6b78f46 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -547,11 +547,10 @@ static void generateInclusions( GeneratorContext &ctx )
         for (const auto &field : message->fields)
         {
             if (field.type.repeated)
-            {
-                if (field.type.id == protogen::TYPE_BYTES)
-                    has_base64 = true;
                 has_array = true;
-            }
+            if (field.type.id == protogen::TYPE_BYTES)
+                has_base64 = true;
+            else
             if (field.type.id == protogen::TYPE_STRING)
                 has_string = true;
             else
-- 
2.43.0


From 797fb1bbbdb2a12952ae662876435792427f2cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 15/31] fix: repeated bytes fields must hold more than one
 value

---
 source/cpp/cppgen.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 6b78f46..0aa05c6 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -131,6 +131,9 @@ static std::string fieldNativeType( const Field &field, bool useLists )
         valueType += "::string_field";
     }
     else
+    if (field.type.id == protogen::TYPE_BYTES)
+        valueType = "std::vector<uint8_t>";
+    else
     if (field.type.id >= protogen::TYPE_DOUBLE && field.type.id <= protogen::TYPE_BYTES)
     {
         int index = (int)field.type.id - (int)protogen::TYPE_DOUBLE;
@@ -142,10 +145,10 @@ static std::string fieldNativeType( const Field &field, bool useLists )
     else
         throw protogen::exception("Invalid field type");
 
-    if (field.type.repeated || field.type.id == protogen::TYPE_BYTES)
+    if (field.type.repeated)
     {
         std::string output = "std::";
-        if (field.type.id == protogen::TYPE_BYTES || !useLists)
+        if (!useLists)
             output += "vector<";
         else
             output += "list<";
@@ -153,7 +156,7 @@ static std::string fieldNativeType( const Field &field, bool useLists )
         output += '>';
         return output;
     }
-    if (field.type.id == protogen::TYPE_MESSAGE || field.type.id == protogen::TYPE_STRING)
+    if (field.type.id == protogen::TYPE_MESSAGE || field.type.id == protogen::TYPE_STRING || field.type.id == protogen::TYPE_BYTES)
         return valueType;
     else
     {
-- 
2.43.0


From 336e269e6c56e6f27578d28950ee272ac9b9aed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 16/31] fix: a document with only null must be reported as an
 error

---
 source/cpp/json-array.hh | 1 +
 source/cpp/json.hh       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index 4ca7a60..47e8cbf 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -94,6 +94,7 @@ bool deserialize_array( T& container, protogen_X_Y_Z::istream& in, protogen_X_Y_
     ctx.tok = &tok;
     int result = json<T>::read(ctx, container);
     if (result == protogen_X_Y_Z::PGR_OK) return true;
+    if (result == protogen_X_Y_Z::PGR_NIL) tok.error(protogen_X_Y_Z::PGERR_INVALID_ARRAY, "unexpected null");
     if (params != nullptr) params->error = std::move(ctx.params.error);
     return false;
 }
diff --git a/source/cpp/json.hh b/source/cpp/json.hh
index 194155e..aa44580 100644
--- a/source/cpp/json.hh
+++ b/source/cpp/json.hh
@@ -82,6 +82,7 @@ static int read_object( json_context &ctx, T &object )
             ctx.tok = &tok; \
             int result = S::read(ctx, *this); \
             if (result == protogen_X_Y_Z::PGR_OK) return true; \
+            if (result == protogen_X_Y_Z::PGR_NIL) tok.error(protogen_X_Y_Z::PGERR_INVALID_OBJECT, "unexpected null"); \
             if (params != nullptr) params->error = std::move(ctx.params.error); \
             return false; \
         } \
-- 
2.43.0


From 7f9c4c50f84343ff4a1517eb8b1670b1a0bbb325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 17/31] fix: obfuscated names with null characters must not be
 truncated

---
 source/cpp/code.txt  |  2 +-
 source/cpp/cppgen.cc | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/cpp/code.txt b/source/cpp/code.txt
index dd92e98..0180c06 100644
--- a/source/cpp/code.txt
+++ b/source/cpp/code.txt
@@ -230,7 +230,7 @@ template<> struct json<$2$>
 ------
 
 --- CODE_JSON__INDEX__ITEM
-            {"$1$", $2$},
+            {$1$, $2$},
 ------
 
 --- CODE_JSON__INDEX__FOOTER
diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 0aa05c6..2c4ec33 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -226,6 +226,15 @@ static inline std::string obfuscate( const std::string &value )
 	return result.str();
 }
 
+/**
+ * C++ expression for the obfuscated string. The length is explicit because the
+ * obfuscated string may contain null characters.
+ */
+static std::string obfuscated_literal( const std::string &value )
+{
+    return Printer::format("std::string(\"$1$\", $2$)", obfuscate(value), value.length());
+}
+
 static std::string get_option( const protogen::OptionMap &options, const std::string &name, const std::string &value )
 {
     if (options.count(name) == 0)
@@ -305,7 +314,7 @@ static void generate_function__write( GeneratorContext &ctx, const Message &mess
 
         std::string label = ctx.number_names ? std::to_string(field.index) : name;
         if (ctx.obfuscate_strings)
-            label = Printer::format("reveal(\"$1$\")", obfuscate(label));
+            label = Printer::format("reveal($1$)", obfuscated_literal(label));
         else
             label = Printer::format("\"$1$\"", label);
 
@@ -418,7 +427,9 @@ static void generate_function__index( GeneratorContext &ctx, const Message &mess
 
         std::string label = ctx.number_names ? std::to_string(field.index) : name;
         if (ctx.obfuscate_strings)
-            label = obfuscate(label);
+            label = obfuscated_literal(label);
+        else
+            label = Printer::format("\"$1$\"", label);
         ctx.printer(CODE_JSON__INDEX__ITEM, label, i);
         ++i;
     }
-- 
2.43.0


From 43d5080029e4236481ea97bee251801ec759b058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 18/31] fix: reject messages in which two fields have the same
 JSON name

---
 source/cpp/cppgen.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 2c4ec33..cafb9c2 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -419,6 +419,7 @@ static void generate_function__index( GeneratorContext &ctx, const Message &mess
         ctx.printer(CODE_JSON__INDEX__HEADER);
 
     int i = 0;
+    std::unordered_set<std::string> names;
     for (auto field : message.fields)
     {
         if (is_transient(field))
@@ -426,6 +427,8 @@ static void generate_function__index( GeneratorContext &ctx, const Message &mess
         auto name = get_json_name(field);
 
         std::string label = ctx.number_names ? std::to_string(field.index) : name;
+        if (!names.insert(label).second)
+            throw exception("duplicate JSON field name '" + label + "' in message '" + message.name + "'");
         if (ctx.obfuscate_strings)
             label = obfuscated_literal(label);
         else
-- 
2.43.0


From d22ff9c9eab67348216f1892b47c70499c50cb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 19/31] fix: reject JSON field names that need escaping

---
 source/cpp/cppgen.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index cafb9c2..664e739 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -266,8 +266,8 @@ static std::string get_json_name( const Field &field )
 {
     auto name = get_option(field.options, PROTOGEN_O_NAME, field.name);
     for (auto c : name)
-        if (c == '\'' || c == '"')
-            throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must not contain quotes", 1, 1);
+        if (c == '\'' || c == '"' || c == '\\' || ((uint8_t) c) < 0x20)
+            throw exception("option '" + std::string(PROTOGEN_O_NAME) + "' in the field '" + field.name + "' must not contain quotes, backslashes or control characters", 1, 1);
     return name;
 }
 
-- 
2.43.0


From 394fa7d748165f4c389468a059783d3cb23aab3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 20/31] fix: a line comment at the end of the file must not
 loop forever

---
 source/proto3.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 384b833..d149a01 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -382,7 +382,7 @@ template <typename I> class Tokenizer
 
             if (cur == '/')
             {
-                while ((cur = is.get()) != '\n') temp.value += (char) cur;
+                while ((cur = is.get()) >= 0 && cur != '\n') temp.value += (char) cur;
                 return temp;
             }
             else
-- 
2.43.0


From 8a1096210f9abb46c3844ea45ed733d39311d0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 21/31] fix: an unterminated string is an error, not an endless
 loop or the end of the file

---
 source/proto3.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index d149a01..10b0600 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -473,7 +473,7 @@ template <typename I> class Tokenizer
             do
             {
                 int cur = is.get();
-                if (cur == '\n' || cur == 0) return Token();
+                if (cur == '\n' || cur <= 0) throw exception("Unterminated string", line, column);
                 if (cur == '"') return tt;
                 tt.value += (char) cur;
             } while (true);
-- 
2.43.0


From 4da4a678f1293e105797a748af7984abfcd6e74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 22/31] fix: reject a stray slash and an unterminated block
 comment

---
 source/proto3.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 10b0600..61af3b6 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -327,7 +327,7 @@ template <typename I> class Tokenizer
                 else
                 if (cur == '/')
                 {
-                    comment(); //discarding
+                    comment(line, column); //discarding
                     continue;
                 }
                 else
@@ -375,7 +375,7 @@ template <typename I> class Tokenizer
     private:
         InputStream<I> &is;
 
-        Token comment()
+        Token comment( int line, int column )
         {
             Token temp(TOKEN_COMMENT, "");
             int cur = is.get();
@@ -392,12 +392,12 @@ template <typename I> class Tokenizer
                 {
                     cur = is.get();
                     if (cur == '*' && is.expect('/')) return temp;
-                    if (cur < 0) return Token();
+                    if (cur < 0) throw exception("Unterminated comment", line, column);
                     temp.value += (char) cur;
                 }
             }
 
-            return Token();
+            throw exception("Invalid symbol", line, column);
         }
 
         Token qname( int line = 1, int column = 1 )
-- 
2.43.0


From 4a12b4df0b9445f805b1ae3f8b30def1cfa3cf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 23/31] fix: check the whole range of invalid field numbers

---
 source/proto3.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 61af3b6..4c6897a 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -659,10 +659,11 @@ static void parseField( ProtoContext &ctx, Message &message )
     // index
     if (ctx.tokens.next().code != TOKEN_INTEGER)
         throw exception("Missing field index", TOKEN_POSITION(ctx.tokens.current));
-    field.index = (int) strtol(ctx.tokens.current.value.c_str(), nullptr, 10);
+    long index = strtol(ctx.tokens.current.value.c_str(), nullptr, 10);
     // https://protobuf.dev/programming-guides/proto3/#assigning
-    if (field.index <= 0 || field.index >= 0x1FFFFFFF || field.index == 0x4E1F || field.index == 0x4A38)
+    if (index <= 0 || index > 0x1FFFFFFF || (index >= 0x4A38 && index <= 0x4E1F))
         throw exception("Invalid field index", TOKEN_POSITION(ctx.tokens.current));
+    field.index = (int) index;
 
     ctx.tokens.next();
 
-- 
2.43.0


From ca298702da2f0d985ca2e388415bbcf94a0f48c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 24/31] fix: reject a message without the closing brace

---
 source/proto3.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/proto3.cc b/source/proto3.cc
index 4c6897a..c871387 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -710,6 +710,8 @@ static void parseMessage( ProtoContext &ctx )
                 else
                     parseField(ctx, *message);
             }
+            if (ctx.tokens.current.code != TOKEN_END)
+                throw exception("Unterminated message", CURRENT_TOKEN_POSITION);
             ctx.tree.messages.push_back(message);
             return;
         }
-- 
2.43.0


From 150297338b1eca3e1f544ee7f9b3d6333e0f042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 25/31] fix: reject duplicate field and message names

---
 source/proto3.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index c871387..256b99e 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -680,10 +680,14 @@ static void parseField( ProtoContext &ctx, Message &message )
     if (ctx.tokens.current.code != TOKEN_SCOLON)
         throw exception("Expected ';'", TOKEN_POSITION(ctx.tokens.current));
 
-    // check for repeated field indices
+    // check for repeated field indices and names
     for (auto it = message.fields.begin(); it != message.fields.end(); it++)
+    {
         if (it->index == field.index)
             throw exception("Field '" + it->name + "' has the same index as '" + field.name + "'", CURRENT_TOKEN_POSITION);
+        if (it->name == field.name)
+            throw exception("Duplicate field '" + field.name + "'", CURRENT_TOKEN_POSITION);
+    }
 
     message.fields.push_back(field);
 }
@@ -712,6 +716,8 @@ static void parseMessage( ProtoContext &ctx )
             }
             if (ctx.tokens.current.code != TOKEN_END)
                 throw exception("Unterminated message", CURRENT_TOKEN_POSITION);
+            if (findMessage(ctx, message->qualifiedName()) != nullptr)
+                throw exception("Duplicate message '" + message->qualifiedName() + "'", CURRENT_TOKEN_POSITION);
             ctx.tree.messages.push_back(message);
             return;
         }
-- 
2.43.0


From 46d3fa591abc3a5077523949122c59d19417cba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:49 +0000
Subject: [PATCH 26/31] fix: refuse overlong, surrogate and out-of-range UTF-8
 when writing ASCII

---
 source/cpp/json-string.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 5f0d1d3..8ffe00e 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -103,6 +103,8 @@ struct json<std::string, void>
                 if (byte1 >= 0xC0 && byte1 <= 0xDF && (byte2 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x1F) << 6) | (byte2 & 0x3F);
+                    if (codepoint < 0x80)
+                        return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
                     write_escaped_utf8(ctx.os, codepoint);
                     i += 2;
                     continue;
@@ -117,6 +119,8 @@ struct json<std::string, void>
                 if (byte1 >= 0xE0 && byte1 <= 0xEF && i + 2 < size && (byte2 & 0xC0) == 0x80 && (byte3 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x0F) << 12) | ((byte2 & 0x3F) << 6) | (byte3 & 0x3F);
+                    if (codepoint < 0x800 || (codepoint >= 0xD800 && codepoint <= 0xDFFF))
+                        return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
                     write_escaped_utf8(ctx.os, codepoint);
                     i += 3;
                     continue;
@@ -131,6 +135,8 @@ struct json<std::string, void>
                 if (byte1 >= 0xF0 && byte1 <= 0xF4 && i + 3 < size && (byte2 & 0xC0) == 0x80 && (byte3 & 0xC0) == 0x80 && (byte4 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x07) << 18) | ((byte2 & 0x3F) << 12) | ((byte3 & 0x3F) << 6) | (byte4 & 0x3F);
+                    if (codepoint < 0x10000 || codepoint > 0x10FFFF)
+                        return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
 
                     // break the codepoint into UTF-16 surrogate pair
                     static const uint32_t LEAD_OFFSET = 0xD800 - (0x10000 >> 10);
-- 
2.43.0


From 46ccdeae00355b44521c487f15d28193f7d86425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:52 +0000
Subject: [PATCH 27/31] fix: report a failure to write the generated code

---
 source/main.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/main.cc b/source/main.cc
index dbdc563..6594502 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -86,7 +86,9 @@ int main( int argc, char **argv )
         result = 1;
     }
     input.close();
+    output->flush();
     if (argc == 3) out.close();
+    if (result == 0 && !output->good()) main_error("Unable to write the generated code");
 
     return result;
 }
\ No newline at end of file
-- 
2.43.0


From 2ebf7118aace78a41aa6f4a1b6857e84cccbc102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:52 +0000
Subject: [PATCH 28/31] fix: report a failure to read the schema

---
 source/main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/main.cc b/source/main.cc
index 6594502..be85e54 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -71,6 +71,7 @@ int main( int argc, char **argv )
     try
     {
         proto.parse(input, fullPath);
+        if (input.bad()) main_error(std::string("Unable to read '") + argv[1] + "'");
 
         for (auto &message : proto.messages)
         {
-- 
2.43.0


From 6366410bd5d050174f54783c05ff8e38f65f0b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:52 +0000
Subject: [PATCH 29/31] fix: say why when the schema path cannot be resolved

---
 source/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/main.cc b/source/main.cc
index be85e54..9d8a33f 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -64,7 +64,7 @@ int main( int argc, char **argv )
 	if (GetFullPathName(argv[1], MAX_PATH, fullPath, nullptr) == 0) return 1;
 	#else
 	char fullPath[PATH_MAX] = { 0 };
-	if (realpath(argv[1], fullPath) == nullptr) return 1;
+	if (realpath(argv[1], fullPath) == nullptr) main_error(std::string("Unable to resolve '") + argv[1] + "'");
 	#endif
 
     protogen::Proto3 proto;
-- 
2.43.0


From 9a959620f39b6d1cdbb2d25cc5a5b2899ee15aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:40 +0000
Subject: [PATCH 30/31] fix: a line break inside a token must not be dropped

---
 source/cpp/protogen.hh | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index a7f5e5b..eb36cdf 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -163,7 +163,6 @@ class iterator_istream : public istream
         iterator_istream( const I& first, const I& last ) : beg_(first), end_(last), line_(1),
             column_(1)
         {
-            skip();
         }
         int peek() override
         {
@@ -173,9 +172,14 @@ class iterator_istream : public istream
         void next() override
         {
             if (beg_ == end_) return;
+            if (*beg_ == '\n')
+            {
+                ++line_;
+                column_ = 1;
+            }
+            else
+                ++column_;
             ++beg_;
-            ++column_;
-            skip();
         }
         bool eof() const override { return beg_ == end_; }
         int line() const override { return line_; }
@@ -183,15 +187,6 @@ class iterator_istream : public istream
     protected:
         I beg_, end_;
         int line_, column_;
-        void skip()
-        {
-            while (!(beg_ == end_) && *beg_ == '\n')
-            {
-                ++line_;
-                column_ = 1;
-                ++beg_;
-            }
-        }
 };
 
 template<class T>
-- 
2.43.0


From cab28436f283b4adad88703204605e27171c25f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:14 +0000
Subject: [PATCH 31/31] fix: a string field written through its reference must
 compare equal to its value

---
 source/cpp/json-string.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 8ffe00e..32dd8c7 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -25,12 +25,12 @@ class string_field
         string_field &operator=( const string_field &that ) { this->null_ = that.null_; this->value_ = that.value_; return *this; }
         string_field &operator=( const value_type &that ) { this->null_ = false; this->value_ = that; return *this; }
         string_field &operator=( const char *that ) { this->null_ = false; this->value_ = that; return *this; }
-        bool operator==( const char *that ) const { return !this->null_ && this->value_ == that; }
-        bool operator!=( const char *that ) const { return !this->null_ && this->value_ != that; }
-        bool operator==( const value_type &that ) const { return !this->null_ && this->value_ == that; }
-        bool operator!=( const value_type &that ) const { return !this->null_ && this->value_ != that; }
-        bool operator==( const string_field &that ) const { return this->null_ == that.null_ && this->value_ == that.value_;  }
-        bool operator!=( const string_field &that ) const { return this->null_ != that.null_ || this->value_ != that.value_;  }
+        bool operator==( const char *that ) const { return !this->empty() && this->value_ == that; }
+        bool operator!=( const char *that ) const { return !this->empty() && this->value_ != that; }
+        bool operator==( const value_type &that ) const { return !this->empty() && this->value_ == that; }
+        bool operator!=( const value_type &that ) const { return !this->empty() && this->value_ != that; }
+        bool operator==( const string_field &that ) const { return this->empty() == that.empty() && this->value_ == that.value_;  }
+        bool operator!=( const string_field &that ) const { return this->empty() != that.empty() || this->value_ != that.value_;  }
         operator value_type&() { return this->value_; }
         operator const value_type&() const { return this->value_; }
         value_type &operator *() { return this->value_; }
-- 
2.43.0

