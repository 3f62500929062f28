From f23f83a00b8431522ef3444b90377249fa51bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 01/35] fix: write output before advancing the iterator

iterator_ostream incremented the iterator before each write, so that
serialize(char*, size_t) left the first byte of the buffer unwritten and
lost the last byte of the document.
---
 source/cpp/protogen.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index c330d97..2ff9649 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -123,18 +123,19 @@ class iterator_ostream : public ostream
         }
         ostream & operator<<( char value ) override
         {
-            *++beg_ = value;
+            *beg_ = value;
+            ++beg_;
             return *this;
         }
         ostream & operator<<( const std::string &value ) override
         {
             for (auto it = value.begin(); it != value.end(); ++it)
-                *++beg_ = *it;
+                *this << *it;
             return *this;
         }
         ostream & operator<<( const char *value ) override
         {
-            while (*value != 0) *++beg_ = *value++;
+            while (*value != 0) *this << *value++;
             return *this;
         }
         ostream & operator<<( char *value ) override { return *this << (const char*) value; }
-- 
2.43.0


From 0d8be9deeedbae9de03e945af0541c5e683c47e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 02/35] fix: fail when the document does not fit in the
 caller's buffer

serialize(char*, size_t) dropped whatever did not fit and returned true.
---
 source/cpp/protogen.hh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 2ff9649..a03e283 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -139,6 +139,7 @@ class iterator_ostream : public ostream
             return *this;
         }
         ostream & operator<<( char *value ) override { return *this << (const char*) value; }
+        const I &iterator() const { return beg_; }
 
     protected:
         I beg_;
@@ -226,14 +227,16 @@ class mem_iterator
 {
     static_assert(std::is_arithmetic<T>::value, "invalid template parameters");
     public:
-        mem_iterator( T *begin, size_t count ) : cursor(begin), end(begin + count), empty(0)
+        mem_iterator( T *begin, size_t count ) : cursor(begin), end(begin + count), empty(0), overflow_(false)
         {
         }
         mem_iterator &operator++()
         {
             if (cursor < end) cursor++;
+            else overflow_ = true;
             return *this;
         }
+        bool overflow() const { return overflow_; }
         T &operator*()
         {
             if (cursor >= end) return empty;
@@ -247,6 +250,7 @@ class mem_iterator
         T *cursor;
         const T *end;
         T empty;
+        bool overflow_;
 };
 
 namespace internal {
@@ -687,7 +691,11 @@ struct message
     {
         auto begin = mem_iterator<char>(in, len);
         iterator_ostream<mem_iterator<char>> os(begin);
-        return serialize(os, params);
+        if (!serialize(os, params)) return false;
+        if (!os.iterator().overflow()) return true;
+        if (params != nullptr)
+            params->error = ErrorInfo(error_code::PGERR_INVALID_VALUE, "output buffer is too small", 0, 0);
+        return false;
     }
 
     virtual bool serialize( std::vector<char> &out, Parameters *params = nullptr ) const
-- 
2.43.0


From 5097abcd014634e742edacae60b648f75ceab8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 03/35] fix: fail when the output stream does not accept the
 whole document

serialize(std::ostream&) returned true even if the stream went bad.
---
 source/cpp/protogen.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index a03e283..7353fd7 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -684,7 +684,11 @@ struct message
         typedef std::ostream_iterator<char> ittype;
         ittype begin(out);
         iterator_ostream<ittype> os(begin);
-        return serialize(os, params);
+        if (!serialize(os, params)) return false;
+        if (!out.fail()) return true;
+        if (params != nullptr)
+            params->error = ErrorInfo(error_code::PGERR_INVALID_VALUE, "unable to write to the output stream", 0, 0);
+        return false;
     }
 
     virtual bool serialize( char *in, size_t len, Parameters *params = nullptr )
-- 
2.43.0


From 20d9c12e66a8068d96756f75579f55ab77403664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 04/35] fix: restore the stream's skipws flag when
 deserialization throws

---
 source/cpp/protogen.hh | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 7353fd7..7affce2 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -642,11 +642,19 @@ struct message
     virtual bool deserialize( std::istream &in, Parameters *params = nullptr )
     {
         bool skip = in.flags() & std::ios_base::skipws;
+        bool result = false;
         std::noskipws(in);
-        std::istream_iterator<char> end;
-        std::istream_iterator<char> begin(in);
-        iterator_istream<std::istream_iterator<char>> is(begin, end);
-        bool result = deserialize(is, params);
+        try
+        {
+            std::istream_iterator<char> end;
+            std::istream_iterator<char> begin(in);
+            iterator_istream<std::istream_iterator<char>> is(begin, end);
+            result = deserialize(is, params);
+        } catch (...)
+        {
+            if (skip) std::skipws(in);
+            throw;
+        }
         if (skip) std::skipws(in);
         return result;
     }
-- 
2.43.0


From 1a8c0bab0c74c40e55dce79e2df5038b9545c288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 05/35] fix: give string tokens their position

Errors at a string token (e.g. a string where a number is expected) were
reported at line 0, column 0.
---
 source/cpp/protogen.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 7affce2..58bce4e 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -419,7 +419,7 @@ class tokenizer
                 if (c == '"')
                 {
                     input_.next();
-                    return token(token_id::STRING, value);
+                    return token(token_id::STRING, value, line, column);
                 }
                 if (c == '\\')
                 {
-- 
2.43.0


From 2409a2f473113c1166c88f79a3435bbe2094d528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 06/35] fix: limit the nesting of ignored values

A field unknown to the message with a deeply nested array or object
overflowed the stack of the process reading it.
---
 source/cpp/protogen.hh | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 58bce4e..af21886 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -387,6 +387,8 @@ class tokenizer
         token current_;
         istream &input_;
         ErrorInfo &error_;
+        static const int MAX_IGNORE_DEPTH = 512;
+        int ignore_depth_ = 0;
 
         std::string parse_identifier()
         {
@@ -580,6 +582,17 @@ class tokenizer
         }
 
         int ignore_value()
+        {
+            // the nesting is controlled by the input, so the recursion must be limited
+            if (ignore_depth_ >= MAX_IGNORE_DEPTH)
+                return error(error_code::PGERR_IGNORE_FAILED, "too many nested values");
+            ++ignore_depth_;
+            int result = ignore_any();
+            --ignore_depth_;
+            return result;
+        }
+
+        int ignore_any()
         {
             switch (peek().id)
             {
-- 
2.43.0


From b2b079817afc8d79eb1d0043817e590d3d7d809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 07/35] fix: accept escaped ASCII characters in JSON strings

Escapes such as \u003c, \u001f or \u0000 made the whole string invalid.
---
 source/cpp/protogen.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index af21886..2d88bee 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -493,6 +493,10 @@ class tokenizer
                 value += (char) (0x80 | (codepoint & 0x3F));
             }
             else
+            // 1-byte UTF-8 = 0xxxxxxx
+            if (codepoint <= 0x7F)
+                value += (char) codepoint;
+            else
             // 2-byte UTF-8 = 110xxxxx 10xxxxxx
             if (codepoint >= 0x80 && codepoint <= 0x7FF)
             {
-- 
2.43.0


From 8c91ae8d91ddd2a387a86c0123c19b4f4726ca9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 08/35] fix: escape control characters in JSON strings

Control characters without a short escape were written raw, which is not
valid JSON; strings containing NUL could not be read back.
---
 source/cpp/json-string.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 7d21daa..54a0286 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -76,7 +76,11 @@ struct json<std::string, void>
                     case '\r': (*ctx.os) <<  "\\r"; break;
                     case '\n': (*ctx.os) <<  "\\n"; break;
                     case '\t': (*ctx.os) <<  "\\t"; break;
-                    default:   (*ctx.os) << (char) byte1;
+                    default:
+                        if (byte1 < 0x20)
+                            write_escaped_utf8(ctx.os, byte1);
+                        else
+                            (*ctx.os) << (char) byte1;
                 }
                 i++;
             }
-- 
2.43.0


From 858cc69d863232d2c153c751a98b1c7c5958cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 09/35] fix: keep null strings absent when deserializing

A null string became a present, empty string, and an array with null
strings (written by serialize for absent elements) was rejected.
---
 source/cpp/json-string.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index 54a0286..d39135f 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -163,8 +163,13 @@ struct json<string_field, void>
         std::string temp;
         temp.clear();
         int result = json<std::string, void>::read(ctx, temp);
-        value.empty(result == PGR_NIL);
-        value = temp;
+        if (result == PGR_NIL)
+        {
+            value.clear();
+            ctx.tok->next();
+            return PGR_OK;
+        }
+        if (result == PGR_OK) value = temp;
         return result;
     }
     static int write( json_context &ctx, const string_field &value )
-- 
2.43.0


From 57da32057141c4d5c39c680820640623aa628d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 10/35] fix: skip null elements of arrays

Null elements were meant to be skipped, but their token was not consumed
and the array was rejected as invalid.
---
 source/cpp/json-array.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index 005acd2..574d0bf 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -47,7 +47,11 @@ struct json<T, typename std::enable_if<is_container<T>::value>::type >
                 typename T::value_type temp;
                 int result = json<typename T::value_type>::read(ctx, temp);
                 if (result == PGR_ERROR) return result;
-                if (result == PGR_OK) value.push_back(temp);
+                if (result == PGR_OK)
+                    value.push_back(temp);
+                else
+                if (ctx.tok->ignore() == PGR_ERROR)
+                    return PGR_ERROR;
 
                 if (!ctx.tok->expect(token_id::COMMA))
                 {
-- 
2.43.0


From 5aa9f8fee4fec2c5a7cc3cf2c7308ae2c48b845e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 11/35] fix: make deserialize_array usable with a memory block

The overload used a non-const iterator and did not compile.
---
 source/cpp/json-array.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index 574d0bf..2d8905d 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -111,9 +111,9 @@ bool deserialize_array( T& container, const std::string &in, Parameters *params
 template<typename T, typename std::enable_if<is_container<T>::value, int>::type = 0>
 bool deserialize_array( T& container, const char *in, size_t len, Parameters *params = nullptr )
 {
-    auto begin = mem_iterator<char>(in, len);
-    auto end = mem_iterator<char>(in + len, 0);
-    iterator_istream<mem_iterator<char>> is(begin, end);
+    auto begin = mem_const_iterator<char>(in, len);
+    auto end = mem_const_iterator<char>(in + len, 0);
+    iterator_istream<mem_const_iterator<char>> is(begin, end);
     return deserialize_array(container, is, params);
 }
 
-- 
2.43.0


From ed2da2ef3d38383bcc8aec78f2d7b0fcb50308fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 12/35] fix: report serialization errors of nested values

The result of writing a field or array element was ignored: serialize
returned true with a truncated, malformed document for text that is not
valid UTF-8 when ensure_ascii is set.
---
 source/cpp/code.txt      | 2 +-
 source/cpp/json-array.hh | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/cpp/code.txt b/source/cpp/code.txt
index ec525ea..dd92e98 100644
--- a/source/cpp/code.txt
+++ b/source/cpp/code.txt
@@ -102,7 +102,7 @@ template<> struct json<$2$>
 ------
 
 --- CODE_JSON__WRITE__ITEM
-        if (ctx.params.serialize_null || !json<decltype(value.$1$)>::empty(value.$1$)) { (*ctx.os) << (f?"\"":",\"") << $2$ << "\":"; json<decltype(value.$1$)>::write(ctx, value.$1$); f=false; }
+        if (ctx.params.serialize_null || !json<decltype(value.$1$)>::empty(value.$1$)) { (*ctx.os) << (f?"\"":",\"") << $2$ << "\":"; if (json<decltype(value.$1$)>::write(ctx, value.$1$) != PGR_OK) return PGR_ERROR; f=false; }
 ------
 
 --- CODE_JSON__WRITE__FOOTER
diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index 2d8905d..34e2b68 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -69,7 +69,8 @@ struct json<T, typename std::enable_if<is_container<T>::value>::type >
         size_t i = 0, t = value.size();
         for (auto it = value.begin(); it != value.end(); ++it, ++i)
         {
-            json<typename T::value_type>::write(ctx, *it);
+            int result = json<typename T::value_type>::write(ctx, *it);
+            if (result != PGR_OK) return result;
             if (i + 1 < t) (*ctx.os) <<  ',';
         }
         (*ctx.os) <<  ']';
-- 
2.43.0


From 6239cdbe833db8fb711b0957d5a16cbda92a4c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 13/35] fix: assigning an empty field empties the target

The old value was kept, so the target was not equal to the source and an
assigned string was still serialized.
---
 source/cpp/json-number.hh | 2 +-
 source/cpp/json-string.hh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index b03d57e..5ae3c5d 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -20,7 +20,7 @@ template<typename T> class field
         void swap( T &that ) { std::swap(this->value_, that); empty_ = false; }
         bool empty() const { return empty_; }
         void clear() { value_ = (T) 0; empty_ = true; }
-        field<T> &operator=( const field<T> &that ) { this->empty_ = that.empty_; if (!empty_) this->value_ = that.value_; return *this; }
+        field<T> &operator=( const field<T> &that ) { this->empty_ = that.empty_; this->value_ = that.value_; return *this; }
         field<T> &operator=( const T &that ) { this->empty_ = false; this->value_ = that; return *this; }
         bool operator==( const T &that ) const { return !this->empty_ && this->value_ == that; }
         bool operator!=( const T &that ) const { return !this->empty_ && this->value_ != that; }
diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index d39135f..f17970c 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -22,7 +22,7 @@ class string_field
         bool empty() const { return null_ && value_.empty(); }
         void empty(bool state) { null_ = state; if (state) value_.clear(); }
         void clear() { value_.clear(); null_ = true; }
-        string_field &operator=( const string_field &that ) { this->null_ = that.null_; if (!null_) this->value_ = that.value_; return *this; }
+        string_field &operator=( const string_field &that ) { this->null_ = that.null_; this->value_ = that.value_; return *this; }
         string_field &operator=( const value_type &that ) { this->null_ = false; this->value_ = that; return *this; }
         string_field &operator=( const char *that ) { this->null_ = false; this->value_ = that; return *this; }
         bool operator==( const char *that ) const { return !this->null_ && this->value_ == that; }
-- 
2.43.0


From 94d56e3bb9ed14f9b49a93d1887380846a316075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 14/35] fix: compare strings by presence and value

A string written through the reference operators is present and is
serialized, but it was unequal to any other string, including itself after
a round trip.
---
 source/cpp/json-string.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index f17970c..ab711b1 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -25,12 +25,12 @@ class string_field
         string_field &operator=( const string_field &that ) { this->null_ = that.null_; this->value_ = that.value_; return *this; }
         string_field &operator=( const value_type &that ) { this->null_ = false; this->value_ = that; return *this; }
         string_field &operator=( const char *that ) { this->null_ = false; this->value_ = that; return *this; }
-        bool operator==( const char *that ) const { return !this->null_ && this->value_ == that; }
-        bool operator!=( const char *that ) const { return !this->null_ && this->value_ != that; }
-        bool operator==( const value_type &that ) const { return !this->null_ && this->value_ == that; }
-        bool operator!=( const value_type &that ) const { return !this->null_ && this->value_ != that; }
-        bool operator==( const string_field &that ) const { return this->null_ == that.null_ && this->value_ == that.value_;  }
-        bool operator!=( const string_field &that ) const { return this->null_ != that.null_ || this->value_ != that.value_;  }
+        bool operator==( const char *that ) const { return !this->empty() && this->value_ == that; }
+        bool operator!=( const char *that ) const { return !this->empty() && this->value_ != that; }
+        bool operator==( const value_type &that ) const { return !this->empty() && this->value_ == that; }
+        bool operator!=( const value_type &that ) const { return !this->empty() && this->value_ != that; }
+        bool operator==( const string_field &that ) const { return this->empty() == that.empty() && this->value_ == that.value_;  }
+        bool operator!=( const string_field &that ) const { return this->empty() != that.empty() || this->value_ != that.value_;  }
         operator value_type&() { return this->value_; }
         operator const value_type&() const { return this->value_; }
         value_type &operator *() { return this->value_; }
-- 
2.43.0


From b4371f747d8b22d5f4f8fd04c8566825d3baf112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 15/35] fix: keep the precision of floating-point numbers

Only six decimals were written, so that small numbers became zero.
---
 source/cpp/json-number.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index 5ae3c5d..a9cc761 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -3,6 +3,8 @@
 #ifndef PROTOGEN_X_Y_Z__JSON_NUMBER
 #define PROTOGEN_X_Y_Z__JSON_NUMBER
 
+#include <limits>
+
 namespace protogen_X_Y_Z {
 
 template<typename T> class field
@@ -79,13 +81,13 @@ std::string number_to_string( const T &value )
 #if defined(_WIN32) || defined(_WIN64)
     static _locale_t loc = _create_locale(LC_NUMERIC, "C");
     if (loc == nullptr) return "0";
-    _snprintf_l(tmp, sizeof(tmp) - 1, "%f", loc, value);
+    _snprintf_l(tmp, sizeof(tmp) - 1, "%.*g", loc, std::numeric_limits<T>::max_digits10, value);
 #else
     static locale_t loc = newlocale(LC_NUMERIC_MASK, "C", 0);
     if (loc == 0) return "0";
     locale_t old = uselocale(loc);
     if (old == 0) return "0";
-    snprintf(tmp, sizeof(tmp) - 1, "%f", value);
+    snprintf(tmp, sizeof(tmp) - 1, "%.*g", std::numeric_limits<T>::max_digits10, value);
     uselocale(old);
 #endif
     tmp[sizeof(tmp) - 1] = 0;
-- 
2.43.0


From 8781bf4c3776b4e7007446fff379bdc9ce13a4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 16/35] fix: report an error for a null document

Deserialization failed, but the error code was PGERR_OK.
---
 source/cpp/json-array.hh | 1 +
 source/cpp/json.hh       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/cpp/json-array.hh b/source/cpp/json-array.hh
index 34e2b68..025ca95 100644
--- a/source/cpp/json-array.hh
+++ b/source/cpp/json-array.hh
@@ -98,6 +98,7 @@ bool deserialize_array( T& container, protogen_X_Y_Z::istream& in, protogen_X_Y_
     ctx.tok = &tok;
     int result = json<T>::read(ctx, container);
     if (result == protogen_X_Y_Z::PGR_OK) return true;
+    if (result == protogen_X_Y_Z::PGR_NIL) tok.error(error_code::PGERR_INVALID_ARRAY, "unexpected null");
     if (params != nullptr) params->error = std::move(ctx.params.error);
     return false;
 }
diff --git a/source/cpp/json.hh b/source/cpp/json.hh
index 194155e..f09e85d 100644
--- a/source/cpp/json.hh
+++ b/source/cpp/json.hh
@@ -82,6 +82,7 @@ static int read_object( json_context &ctx, T &object )
             ctx.tok = &tok; \
             int result = S::read(ctx, *this); \
             if (result == protogen_X_Y_Z::PGR_OK) return true; \
+            if (result == protogen_X_Y_Z::PGR_NIL) tok.error(protogen_X_Y_Z::error_code::PGERR_INVALID_OBJECT, "unexpected null"); \
             if (params != nullptr) params->error = std::move(ctx.params.error); \
             return false; \
         } \
-- 
2.43.0


From 1b67d7227dbef1a7a53a6d07c93e9edade6f020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 17/35] fix: do not emit NUL characters in obfuscated names

A character equal to the obfuscation mask became a NUL and cut the name:
fields such as 'color' or 'price' were written under a garbled name and
never read.
---
 source/cpp/cppgen.cc   | 4 +++-
 source/cpp/protogen.hh | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 74fb78b..efcac98 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -218,7 +218,9 @@ static inline std::string obfuscate( const std::string &value )
 	for (size_t i = 0, t = value.length(); i < t; ++i)
     {
 		result << "\\x";
-        result << std::hex << ((uint8_t) value[i] ^ mask);
+		// the output cannot have NUL characters as it is a C string, so keep the original value
+		uint8_t ch = (uint8_t) value[i];
+        result << std::hex << ((ch == mask) ? ch : ch ^ mask);
     }
 	return result.str();
 }
diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index 2d88bee..a0ec998 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -642,7 +642,11 @@ static inline std::string reveal( const std::string &value )
 	std::string result;
     result.reserve(value.length());
 	for (size_t i = 0; i < value.length(); ++i)
-		result += (char) ((uint8_t) value[i] ^ mask);
+	{
+		// values that would become a NUL (or be one) are kept, see 'obfuscate'
+		uint8_t ch = (uint8_t) value[i];
+		result += (char) ((ch == 0 || ch == mask) ? ch : ch ^ mask);
+	}
 	return result;
 }
 
-- 
2.43.0


From 953b2b2e17702a33f8873555fa1cfe9061c15164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 18/35] fix: include the base64 codec for bytes fields

It was included only for repeated bytes fields: the header of a model
with bytes and no repeated field did not compile.
---
 source/cpp/cppgen.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index efcac98..8f03277 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -549,11 +549,10 @@ static void generateInclusions( GeneratorContext &ctx )
         for (const auto &field : message->fields)
         {
             if (field.type.repeated)
-            {
-                if (field.type.id == protogen::TYPE_BYTES)
-                    has_base64 = true;
                 has_array = true;
-            }
+            if (field.type.id == protogen::TYPE_BYTES)
+                has_base64 = true;
+            else
             if (field.type.id == protogen::TYPE_STRING)
                 has_string = true;
             else
-- 
2.43.0


From 3a4d02d83ca3a3593de0f888f57851daabbf63e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 19/35] fix: generate repeated bytes fields as a sequence of
 byte arrays

'repeated bytes' was generated as a single byte array.
---
 source/cpp/cppgen.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 8f03277..2134eb1 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -142,10 +142,12 @@ static std::string fieldNativeType( const Field &field, bool useLists )
     else
         throw protogen::exception("Invalid field type");
 
-    if (field.type.repeated || field.type.id == protogen::TYPE_BYTES)
+    if (field.type.id == protogen::TYPE_BYTES)
+        valueType = "std::vector<" + valueType + ">";
+    if (field.type.repeated)
     {
         std::string output = "std::";
-        if (field.type.id == protogen::TYPE_BYTES || !useLists)
+        if (!useLists)
             output += "vector<";
         else
             output += "list<";
@@ -153,7 +155,8 @@ static std::string fieldNativeType( const Field &field, bool useLists )
         output += '>';
         return output;
     }
-    if (field.type.id == protogen::TYPE_MESSAGE || field.type.id == protogen::TYPE_STRING)
+    if (field.type.id == protogen::TYPE_MESSAGE || field.type.id == protogen::TYPE_STRING ||
+        field.type.id == protogen::TYPE_BYTES)
         return valueType;
     else
     {
-- 
2.43.0


From 54600613d87bd73a6b6fdf5b97dfd6d408eb6caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 20/35] fix: reject incomplete base64 data

The error was recorded, but the value was accepted.
---
 source/cpp/json-base64.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/cpp/json-base64.hh b/source/cpp/json-base64.hh
index 78226c3..c728dd8 100644
--- a/source/cpp/json-base64.hh
+++ b/source/cpp/json-base64.hh
@@ -77,7 +77,8 @@ struct json< std::vector<uint8_t> >
                 int ch = *ptr++;
                 if (ch == 0)
                 {
-                    if (j != 0) ctx.tok->error(error_code::PGERR_INVALID_OBJECT, "invalid base64 data");
+                    if (j != 0 || ptr - 1 != text.c_str() + text.length())
+                        return ctx.tok->error(error_code::PGERR_INVALID_OBJECT, "invalid base64 data");
                     return PGR_OK;
                 }
                 s[j] = b64_int(ch);
-- 
2.43.0


From 77fbe35179dac73c03ce65129c02fcfe56073433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 21/35] fix: stop at the end of the model in comments and
 strings

A model ending in a line comment without newline, or inside a string, made
the compiler loop until memory ran out. A string cut by a line break was
taken as the end of the model.
---
 source/proto3.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 384b833..10b0600 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -382,7 +382,7 @@ template <typename I> class Tokenizer
 
             if (cur == '/')
             {
-                while ((cur = is.get()) != '\n') temp.value += (char) cur;
+                while ((cur = is.get()) >= 0 && cur != '\n') temp.value += (char) cur;
                 return temp;
             }
             else
@@ -473,7 +473,7 @@ template <typename I> class Tokenizer
             do
             {
                 int cur = is.get();
-                if (cur == '\n' || cur == 0) return Token();
+                if (cur == '\n' || cur <= 0) throw exception("Unterminated string", line, column);
                 if (cur == '"') return tt;
                 tt.value += (char) cur;
             } while (true);
-- 
2.43.0


From a47e7965ff35aab072452105c6ef403d66284cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 22/35] fix: reject unterminated and malformed comments

A model ending inside a block comment was accepted; a stray '/' was
skipped together with the character after it.
---
 source/proto3.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 10b0600..edc0139 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -327,7 +327,7 @@ template <typename I> class Tokenizer
                 else
                 if (cur == '/')
                 {
-                    comment(); //discarding
+                    comment(line, column); //discarding
                     continue;
                 }
                 else
@@ -375,7 +375,7 @@ template <typename I> class Tokenizer
     private:
         InputStream<I> &is;
 
-        Token comment()
+        Token comment( int line = 1, int column = 1 )
         {
             Token temp(TOKEN_COMMENT, "");
             int cur = is.get();
@@ -392,12 +392,12 @@ template <typename I> class Tokenizer
                 {
                     cur = is.get();
                     if (cur == '*' && is.expect('/')) return temp;
-                    if (cur < 0) return Token();
+                    if (cur < 0) throw exception("Unterminated comment", line, column);
                     temp.value += (char) cur;
                 }
             }
 
-            return Token();
+            throw exception("Invalid symbol", line, column);
         }
 
         Token qname( int line = 1, int column = 1 )
-- 
2.43.0


From 95fd56dd7179141cb08968505ace08f5af0d9131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 23/35] fix: reject a model that ends inside a message

The incomplete message was accepted.
---
 source/proto3.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/proto3.cc b/source/proto3.cc
index edc0139..7c9998a 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -709,6 +709,8 @@ static void parseMessage( ProtoContext &ctx )
                 else
                     parseField(ctx, *message);
             }
+            if (ctx.tokens.current.code != TOKEN_END)
+                throw exception("Missing '}'", CURRENT_TOKEN_POSITION);
             ctx.tree.messages.push_back(message);
             return;
         }
-- 
2.43.0


From e15993106d469f71de636ca074008881271f48c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 24/35] fix: restore the input flags whatever exception parsing
 throws

Only protogen::exception was considered, not std::bad_alloc or an
exception of the stream.
---
 source/proto3.cc | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/source/proto3.cc b/source/proto3.cc
index 7c9998a..623fcea 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -774,7 +774,13 @@ static void parseProto( ProtoContext &ctx )
 
 void Proto3::parse( std::istream &input, const std::string &fileName )
 {
-    std::ios_base::fmtflags flags = input.flags();
+    // restores the stream flags when leaving the function, even by an exception
+    struct FlagsGuard
+    {
+        std::istream &input;
+        std::ios_base::fmtflags flags;
+        ~FlagsGuard() { input.flags(flags); }
+    } guard = { input, input.flags() };
     std::noskipws(input);
     std::istream_iterator<char> end;
     std::istream_iterator<char> begin(input);
@@ -785,15 +791,7 @@ void Proto3::parse( std::istream &input, const std::string &fileName )
     ProtoContext ctx(tok, *this, is);
     this->fileName = fileName;
 
-    try
-    {
-        parseProto(ctx);
-        if (flags & std::ios::skipws) std::skipws(input);
-    } catch (exception &ex)
-    {
-        if (flags & std::ios::skipws) std::skipws(input);
-        throw ex;
-    }
+    parseProto(ctx);
 
     // check if we have unresolved types
     for (auto &message : this->messages)
-- 
2.43.0


From d62ac00e3bf309de83a138514391c5ddc6469567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 25/35] fix: do not leak models with circular references

Messages that refer to each other (or to themselves) kept each other
alive through shared pointers.
---
 include/protogen/proto3.hh |  2 +-
 source/cpp/cppgen.cc       | 10 ++++++----
 source/proto3.cc           |  4 ++--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/protogen/proto3.hh b/include/protogen/proto3.hh
index c556b7a..c3722a1 100644
--- a/include/protogen/proto3.hh
+++ b/include/protogen/proto3.hh
@@ -52,7 +52,7 @@ struct TypeInfo
 {
     FieldType id = FieldType::TYPE_DOUBLE;
     std::string qname;
-    std::shared_ptr<Message> ref;
+    std::weak_ptr<Message> ref; // the messages are owned by 'Proto3'
     bool repeated = false;
     bool optional = false;
 };
diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 2134eb1..3c7fe9b 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -108,9 +108,10 @@ static std::string nativeType( const Field &field )
     else
     if (field.type.id == protogen::TYPE_MESSAGE)
     {
-        if (field.type.ref == nullptr)
+        auto ref = field.type.ref.lock();
+        if (ref == nullptr)
             throw protogen::exception("Message type reference is null");
-        return nativePackage(field.type.ref->package) + "::" + field.type.ref->name;
+        return nativePackage(ref->package) + "::" + ref->name;
     }
     else
         throw protogen::exception("Invalid field type");
@@ -521,8 +522,9 @@ static void sort( MessageList &output, MessageSet &pending, std::shared_ptr<prot
     pending.insert(message);
     for (auto &field : message->fields)
     {
-        if (field.type.ref != nullptr && !contains(output, field.type.ref))
-            sort(output, pending, field.type.ref);
+        auto ref = field.type.ref.lock();
+        if (ref != nullptr && !contains(output, ref))
+            sort(output, pending, ref);
     }
     pending.erase(message);
 
diff --git a/source/proto3.cc b/source/proto3.cc
index 623fcea..6ac16bc 100644
--- a/source/proto3.cc
+++ b/source/proto3.cc
@@ -798,11 +798,11 @@ void Proto3::parse( std::istream &input, const std::string &fileName )
     {
         for (auto &field : message->fields)
         {
-            if (field.type.id != TYPE_MESSAGE || field.type.ref != nullptr)
+            if (field.type.id != TYPE_MESSAGE || !field.type.ref.expired())
                 continue;
 
             field.type.ref = findMessage(ctx, field.type.qname);
-            if (field.type.ref == nullptr)
+            if (field.type.ref.expired())
                 throw exception("Unable to find message '" + field.type.qname + "'");
         }
     }
-- 
2.43.0


From 60968d2fc11c40c9669554c60698839885709946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 26/35] fix: do not ignore output and allocation failures while
 generating

Streams swallow both: the generated header was silently truncated or had
truncated names.
---
 source/cpp/cppgen.cc | 4 ++++
 source/printer.hh    | 1 +
 2 files changed, 5 insertions(+)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index 3c7fe9b..f20675b 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -219,6 +219,7 @@ static inline std::string obfuscate( const std::string &value )
 {
     uint8_t mask = rol<uint8_t>(0x93U, value.length() % 8);
 	std::stringstream result;
+	result.exceptions(std::ios::badbit); // do not swallow allocation failures
 	for (size_t i = 0, t = value.length(); i < t; ++i)
     {
 		result << "\\x";
@@ -606,6 +607,9 @@ void CppGenerator::generate( Proto3 &root, std::ostream &out )
 
     generateInclusions(ctx);
     generateModel(ctx);
+
+    if (!out.good())
+        throw exception("Unable to write the output");
 }
 
 
diff --git a/source/printer.hh b/source/printer.hh
index e482437..d9d5091 100644
--- a/source/printer.hh
+++ b/source/printer.hh
@@ -54,6 +54,7 @@ class Printer
         static std::string format(const char* format, const T&... args)
         {
             std::stringstream ss;
+            ss.exceptions(std::ios::badbit); // do not swallow allocation failures
             print(ss, format, {toString(args)...});
             return ss.str();
         }
-- 
2.43.0


From 4d081c8e3d7988b5d3310a2c40519c22d1e22d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 27/35] fix: fail when the model cannot be read or the output
 cannot be written

Read errors were taken as the end of the model and write errors were
ignored: the compiler reported success with an incomplete header. The
output is now opened after the header is complete, so that a rejected
model does not destroy the previous header.
---
 source/main.cc | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/source/main.cc b/source/main.cc
index dbdc563..796611f 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -18,6 +18,7 @@
 #include <protogen/protogen.hh>
 #include <fstream>
 #include <iostream>
+#include <sstream>
 #include <limits.h>
 #include <stdlib.h>
 #include <algorithm>
@@ -49,15 +50,6 @@ int main( int argc, char **argv )
     std::ifstream input(argv[1]);
     if (!input.good()) main_error(std::string("Unable to open '") + argv[1] + "'");
 
-    std::ostream *output = &std::cout;
-    std::ofstream out;
-    if (argc == 3)
-    {
-        out.open(argv[2], std::ios_base::ate);
-        if (!out.good()) main_error(std::string("Unable to open '") + argv[2] + "'");
-        output = &out;
-    }
-
     int result = 0;
     #ifdef _WIN32
 	char fullPath[MAX_PATH] = { 0 };
@@ -67,10 +59,13 @@ int main( int argc, char **argv )
 	if (realpath(argv[1], fullPath) == nullptr) return 1;
 	#endif
 
+    // the output is written only if there is a complete header
+    std::ostringstream header;
     protogen::Proto3 proto;
     try
     {
         proto.parse(input, fullPath);
+        if (input.bad()) main_error(std::string("Unable to read '") + argv[1] + "'");
 
         for (auto &message : proto.messages)
         {
@@ -79,14 +74,27 @@ int main( int argc, char **argv )
         }
 
         protogen::CppGenerator gen;
-        gen.generate(proto, *output);
+        gen.generate(proto, header);
     } catch (protogen::exception &ex)
     {
         std::cerr << fullPath << ':' << ex.line << ':' << ex.column << ": error: " << ex.cause() << std::endl;
         result = 1;
     }
     input.close();
+    if (result != 0) return result;
+
+    std::ostream *output = &std::cout;
+    std::ofstream out;
+    if (argc == 3)
+    {
+        out.open(argv[2], std::ios_base::ate);
+        if (!out.good()) main_error(std::string("Unable to open '") + argv[2] + "'");
+        output = &out;
+    }
+    *output << header.str();
+    output->flush();
     if (argc == 3) out.close();
+    if (!output->good()) main_error("Unable to write the output");
 
     return result;
 }
\ No newline at end of file
-- 
2.43.0


From 4389d12b75f3f7a603ed400b1ef808e98d77565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:14 +0000
Subject: [PATCH 28/35] fix: reject overlong and out-of-range UTF-8 sequences

With ensure_ascii they were written as escapes of other characters, or as
escapes that are not valid JSON, and serialize reported success.
---
 source/cpp/json-string.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/cpp/json-string.hh b/source/cpp/json-string.hh
index ab711b1..8df20f1 100644
--- a/source/cpp/json-string.hh
+++ b/source/cpp/json-string.hh
@@ -100,7 +100,7 @@ struct json<std::string, void>
                     return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
 
                 uint8_t byte2 = value[i + 1];
-                if (byte1 >= 0xC0 && byte1 <= 0xDF && (byte2 & 0xC0) == 0x80)
+                if (byte1 >= 0xC2 && byte1 <= 0xDF && (byte2 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x1F) << 6) | (byte2 & 0x3F);
                     write_escaped_utf8(ctx.os, codepoint);
@@ -117,6 +117,9 @@ struct json<std::string, void>
                 if (byte1 >= 0xE0 && byte1 <= 0xEF && i + 2 < size && (byte2 & 0xC0) == 0x80 && (byte3 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x0F) << 12) | ((byte2 & 0x3F) << 6) | (byte3 & 0x3F);
+                    // neither overlong encodings nor surrogates
+                    if (codepoint < 0x800 || (codepoint >= 0xD800 && codepoint <= 0xDFFF))
+                        return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
                     write_escaped_utf8(ctx.os, codepoint);
                     i += 3;
                     continue;
@@ -131,6 +134,8 @@ struct json<std::string, void>
                 if (byte1 >= 0xF0 && byte1 <= 0xF4 && i + 3 < size && (byte2 & 0xC0) == 0x80 && (byte3 & 0xC0) == 0x80 && (byte4 & 0xC0) == 0x80)
                 {
                     uint32_t codepoint = ((byte1 & 0x07) << 18) | ((byte2 & 0x3F) << 12) | ((byte3 & 0x3F) << 6) | (byte4 & 0x3F);
+                    if (codepoint < 0x10000 || codepoint > 0x10FFFF)
+                        return set_error(ctx.params.error, error_code::PGERR_INVALID_VALUE, "invalid UTF-8 code point");
 
                     // break the codepoint into UTF-16 surrogate pair
                     static const uint32_t LEAD_OFFSET = 0xD800 - (0x10000 >> 10);
-- 
2.43.0


From 984f5729125caf730240d652e1bed9b6acda4a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:03 +0000
Subject: [PATCH 29/35] fix: report failure to create the numeric locale
 instead of using wrong values

---
 source/cpp/json-number.hh | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/source/cpp/json-number.hh b/source/cpp/json-number.hh
index a9cc761..ca11453 100644
--- a/source/cpp/json-number.hh
+++ b/source/cpp/json-number.hh
@@ -4,6 +4,7 @@
 #define PROTOGEN_X_Y_Z__JSON_NUMBER
 
 #include <limits>
+#include <new>
 
 namespace protogen_X_Y_Z {
 
@@ -31,17 +32,31 @@ template<typename T> class field
         operator T() const { return this->value_; }
 };
 
+#if defined(_WIN32) || defined(_WIN64)
+inline _locale_t create_locale()
+{
+    _locale_t loc = _create_locale(LC_NUMERIC, "C");
+    if (loc == nullptr) throw std::bad_alloc();
+    return loc;
+}
+#else
+inline locale_t create_locale()
+{
+    locale_t loc = newlocale(LC_NUMERIC_MASK, "C", 0);
+    if (loc == 0) throw std::bad_alloc();
+    return loc;
+}
+#endif
+
 template<typename T, typename std::enable_if<std::is_floating_point<T>::value, int>::type = 0>
 static T string_to_number( const std::string &text )
 {
     double value;
 #if defined(_WIN32) || defined(_WIN64)
-    static _locale_t loc = _create_locale(LC_NUMERIC, "C");
-    if (loc == nullptr) return 0;
+    static _locale_t loc = create_locale();
     value = _strtod_l(text.c_str(), nullptr, loc);
 #else
-    static locale_t loc = newlocale(LC_NUMERIC_MASK, "C", 0);
-    if (loc == 0) return 0;
+    static locale_t loc = create_locale();
 #ifdef __USE_GNU
     value = strtod_l(text.c_str(), nullptr, loc);
 #else
@@ -79,12 +94,10 @@ std::string number_to_string( const T &value )
 {
     char tmp[320] = {0};
 #if defined(_WIN32) || defined(_WIN64)
-    static _locale_t loc = _create_locale(LC_NUMERIC, "C");
-    if (loc == nullptr) return "0";
+    static _locale_t loc = create_locale();
     _snprintf_l(tmp, sizeof(tmp) - 1, "%.*g", loc, std::numeric_limits<T>::max_digits10, value);
 #else
-    static locale_t loc = newlocale(LC_NUMERIC_MASK, "C", 0);
-    if (loc == 0) return "0";
+    static locale_t loc = create_locale();
     locale_t old = uselocale(loc);
     if (old == 0) return "0";
     snprintf(tmp, sizeof(tmp) - 1, "%.*g", std::numeric_limits<T>::max_digits10, value);
-- 
2.43.0


From 8470da014df7b5490d5517bc6723fae40f40d893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:33 +0000
Subject: [PATCH 30/35] fix: explain on stderr when the model path cannot be
 resolved

---
 source/main.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/main.cc b/source/main.cc
index 796611f..277f91a 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -53,10 +53,10 @@ int main( int argc, char **argv )
     int result = 0;
     #ifdef _WIN32
 	char fullPath[MAX_PATH] = { 0 };
-	if (GetFullPathName(argv[1], MAX_PATH, fullPath, nullptr) == 0) return 1;
+	if (GetFullPathName(argv[1], MAX_PATH, fullPath, nullptr) == 0) main_error(std::string("Unable to resolve '") + argv[1] + "'");
 	#else
 	char fullPath[PATH_MAX] = { 0 };
-	if (realpath(argv[1], fullPath) == nullptr) return 1;
+	if (realpath(argv[1], fullPath) == nullptr) main_error(std::string("Unable to resolve '") + argv[1] + "'");
 	#endif
 
     // the output is written only if there is a complete header
-- 
2.43.0


From 6dc8facf8eb1aa5add635eaee2f6abb53755e412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:25 +0000
Subject: [PATCH 31/35] fix: sort messages without recursion so long dependency
 chains do not overflow the stack

---
 source/cpp/cppgen.cc | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/source/cpp/cppgen.cc b/source/cpp/cppgen.cc
index f20675b..5d50957 100644
--- a/source/cpp/cppgen.cc
+++ b/source/cpp/cppgen.cc
@@ -515,21 +515,33 @@ static bool contains( const MessageList &items, const std::shared_ptr<protogen::
 
 static void sort( MessageList &output, MessageSet &pending, std::shared_ptr<protogen::Message> message )
 {
-    if (pending.count(message) > 0)
-        throw exception("circular reference with '" + message->name + "'");
     if (contains(output, message))
         return; // already processed
 
+    // messages whose dependencies are being processed, with the next field to look at
+    // (no recursion: the chain of dependencies can be as long as the model)
+    std::vector< std::pair<std::shared_ptr<protogen::Message>, size_t> > stack;
     pending.insert(message);
-    for (auto &field : message->fields)
+    stack.emplace_back(message, 0);
+
+    while (!stack.empty())
     {
-        auto ref = field.type.ref.lock();
-        if (ref != nullptr && !contains(output, ref))
-            sort(output, pending, ref);
-    }
-    pending.erase(message);
+        auto current = stack.back().first;
+        if (stack.back().second == current->fields.size())
+        {
+            output.push_back(current);
+            pending.erase(current);
+            stack.pop_back();
+            continue;
+        }
 
-    output.push_back(message);
+        auto ref = current->fields[stack.back().second++].type.ref.lock();
+        if (ref == nullptr || contains(output, ref))
+            continue;
+        if (!pending.insert(ref).second)
+            throw exception("circular reference with '" + ref->name + "'");
+        stack.emplace_back(ref, 0);
+    }
 }
 
 static void sort( GeneratorContext &ctx )
-- 
2.43.0


From 787afa08dd8c1285a76f366448cf5c0ceb7fccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:27 +0000
Subject: [PATCH 32/35] fix: do not pad the document when a width is set on the
 std::ostream

---
 source/cpp/protogen.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cpp/protogen.hh b/source/cpp/protogen.hh
index a0ec998..0907b49 100644
--- a/source/cpp/protogen.hh
+++ b/source/cpp/protogen.hh
@@ -711,6 +711,7 @@ struct message
     virtual bool serialize( std::ostream &out, Parameters *params = nullptr ) const
     {
         typedef std::ostream_iterator<char> ittype;
+        out.width(0); // do not pad the first character
         ittype begin(out);
         iterator_ostream<ittype> os(begin);
         if (!serialize(os, params)) return false;
-- 
2.43.0


From 2273c9be57ec9eaf475a69b56a706490a197c8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:32 +0000
Subject: [PATCH 33/35] fix: embed the last line of a source that does not end
 in a line break

---
 source/template.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/source/template.cc b/source/template.cc
index bf85b1d..fdfdab2 100644
--- a/source/template.cc
+++ b/source/template.cc
@@ -8,11 +8,8 @@ void copy( std::istream &input, std::ostream &output, const std::string &name )
     std::string line;
 
     output << "#define " << name << " \\\n";
-    while (!input.eof())
+    while (std::getline(input, line))
     {
-        std::getline(input, line);
-		if (!input.good()) break;
-
         if (line.length() > 0 && line[0] == '#' && line.find("AUTO-REMOVE") != std::string::npos)
             continue;
 
@@ -46,11 +43,8 @@ void process( std::istream &input, std::ostream &output, const std::string &guar
     output << "#ifndef " << guard << '\n';
     output << "#define " << guard << '\n';
 
-    while (!input.eof())
+    while (std::getline(input, line))
     {
-        std::getline(input, line);
-		if (!input.good()) break;
-
         if (!content)
         {
             if (line.find("--- ") != 0) continue;
-- 
2.43.0


From 76bcf23594c599c463f0ff4b2cb8de9410d03a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:50 +0000
Subject: [PATCH 34/35] fix: report read and write errors in the build tool

---
 source/template.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/template.cc b/source/template.cc
index fdfdab2..f5ff1c8 100644
--- a/source/template.cc
+++ b/source/template.cc
@@ -114,6 +114,9 @@ int main( int argc, char **argv )
     else
         process(input, output, guard);
 
+    // the build must not go on with an incomplete file
+    output.close();
+    if (input.bad() || !output.good()) return 1;
 
     return 0;
 }
\ No newline at end of file
-- 
2.43.0


From 042d3399ddc9fc7d8c4e1c1e6e46cbe12825259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:51 +0000
Subject: [PATCH 35/35] fix: write the header at the start of the output file

With ios::ate the compiler asked for the end of the file after it had truncated
it. Another protogen that wrote the same output in between made it append its
header to the other's.
---
 source/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/main.cc b/source/main.cc
index 277f91a..d78586e 100644
--- a/source/main.cc
+++ b/source/main.cc
@@ -87,7 +87,7 @@ int main( int argc, char **argv )
     std::ofstream out;
     if (argc == 3)
     {
-        out.open(argv[2], std::ios_base::ate);
+        out.open(argv[2]);
         if (!out.good()) main_error(std::string("Unable to open '") + argv[2] + "'");
         output = &out;
     }
-- 
2.43.0

