From e2a3b51547b11da1eb588b3a8a6f1e83a3be6047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 01/17] fix: UnorderedMap: relink the moved node's successor
 when erasing

erase() moves the last node into the erased slot, but only the predecessor (or
the bucket head) was told about the new index. The successor kept a stale
'prev', so a later erase in the same bucket corrupted the chain.
---
 include/coil/detail/UnorderedMap.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/coil/detail/UnorderedMap.h b/include/coil/detail/UnorderedMap.h
index fa8a9c5..de984f0 100644
--- a/include/coil/detail/UnorderedMap.h
+++ b/include/coil/detail/UnorderedMap.h
@@ -208,6 +208,12 @@ namespace coil
                     m_buckets[lastNode.bucket] = nodeIndex;
                 }
 
+                if (lastNode.next != invalidIndex)
+                {
+                    COIL_ASSERT(lastNode.next < m_nodes.size());
+                    m_nodes[lastNode.next].prev = nodeIndex;
+                }
+
                 coil::exchange(erasedNode, lastNode);
             }
 
-- 
2.43.0


From 152fe406b9ced2e4c3a96be65429eeee71a6626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 02/17] fix: DefaultLexer: don't strip a lone quote in a group
 as a pair

A group element made of a single quote character (e.g. "f (')") was treated as
both its opening and closing quote, producing a string of length -1.
---
 src/DefaultLexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DefaultLexer.cpp b/src/DefaultLexer.cpp
index e8efbaf..eb656c8 100644
--- a/src/DefaultLexer.cpp
+++ b/src/DefaultLexer.cpp
@@ -111,7 +111,7 @@ coil::Vector<coil::StringView> coil::DefaultLexer::splitGroup(StringView str) co
         }
 
         size_t stringEnd = i;
-        if (isQuote(str[stringBegin]) && isQuote(str[stringEnd - 1]))
+        if (stringEnd - stringBegin >= 2 && isQuote(str[stringBegin]) && isQuote(str[stringEnd - 1]))
         {
             stringBegin++;
             stringEnd--;
-- 
2.43.0


From fb6f30744f00be9ba3ae78824344b23bae553cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 03/17] fix: StringConv: reject negative unsigned values after
 leading whitespace

strtoul skips leading whitespace before the sign, so " -5" passed the check of
the first character and wrapped around to a huge unsigned value.
---
 src/StringConv.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/StringConv.cpp b/src/StringConv.cpp
index 6a0e214..1a4f2b6 100644
--- a/src/StringConv.cpp
+++ b/src/StringConv.cpp
@@ -4,6 +4,7 @@
 #include "coil/detail/StringView.h"
 #include "coil/detail/Utils.h"
 
+#include <ctype.h>
 #include <errno.h>
 #include <limits.h>
 #include <stdlib.h>
@@ -49,7 +50,11 @@ namespace
         if (str.empty())
             return false;
 
-        if (str[0] == '-')
+        // strtoX functions skip leading whitespace and accept negative values by wrapping them around
+        size_t signIndex = 0;
+        while (signIndex < str.length() && isspace(static_cast<unsigned char>(str[signIndex])))
+            signIndex++;
+        if (signIndex < str.length() && str[signIndex] == '-')
             return false;
 
         coil::String strCopy = coil::String{str}; // make a C-string to avoid reimplementing strtoX functions
-- 
2.43.0


From bca3a878b88fdd8a50ca72c72443d86cb9a2048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 04/17] fix: TypeSerializer: render a null 'char const*' as
 "null"

A command returning a null C-string crashed in strlen; every other null pointer
is rendered as "null".
---
 src/Coil.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Coil.cpp b/src/Coil.cpp
index d8c2846..162bf2d 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -589,6 +589,9 @@ namespace coil
 
     String coil::TypeSerializer<char const*>::toString(char const* const& value)
     {
+        if (!value)
+            return "null";
+
         return String{value};
     }
 
-- 
2.43.0


From 4de9920c446f47ea9253e23780f4963c2955dddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 05/17] fix: String: allow appending a string to itself

append() reallocated the buffer and then copied from the freed one when the
appended characters belonged to the same string (e.g. "s += s").
---
 src/String.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index b6da60a..eb8f512 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -101,8 +101,13 @@ void coil::String::append(char const* str, size_t length)
     validateIsNullTerminated();
 
     size_t oldSize = this->length();
+
+    // the appended characters may belong to this string, and resizing may reallocate them
+    bool isOwnData = m_buffer.data() && str >= m_buffer.data() && str <= m_buffer.data() + oldSize;
+    size_t ownOffset = isOwnData ? str - m_buffer.data() : 0;
+
     resize(oldSize + length);
-    memcpy(m_buffer.data() + oldSize, str, length);
+    memcpy(m_buffer.data() + oldSize, isOwnData ? m_buffer.data() + ownOffset : str, length);
 
     validateIsNullTerminated();
 }
-- 
2.43.0


From b49e17f24e69daf0b062f1efcb7697ee9d8e9034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 06/17] fix: StdLibCompat: don't drop extra subvalues of an
 optional argument

Only the first subvalue was looked at, so "(1 foo)" was silently accepted as an
optional<int> and "('' 3)" was treated as an empty one.
---
 include/coil/StdLibCompat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coil/StdLibCompat.h b/include/coil/StdLibCompat.h
index 6490fd2..c54c2d9 100644
--- a/include/coil/StdLibCompat.h
+++ b/include/coil/StdLibCompat.h
@@ -95,10 +95,10 @@ namespace coil
     {
         static Expected<std::optional<T>, String> fromString(Value const& input)
         {
-            if (input.subvalues.empty() || input.subvalues[0].empty())
+            if (input.subvalues.empty() || (input.subvalues.size() == 1 && input.subvalues[0].empty()))
                 return std::optional<T>{};
 
-            auto innerValue = TypeSerializer<T>::fromString(input.subvalues[0]);
+            auto innerValue = TypeSerializer<T>::fromString(input);
             if (innerValue)
                 return std::optional<T>{coil::move(innerValue).value()};
 
-- 
2.43.0


From ec514209274f6262925cb5d51216481e9dced22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 07/17] fix: Bindings: leave a moved-from registry usable

The defaulted move constructor left the source without a lexer and with an empty
bucket table, so looking up a command in it divided by zero.
---
 src/Coil.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Coil.cpp b/src/Coil.cpp
index 162bf2d..fe84bf4 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -188,7 +188,10 @@ namespace coil
 
     /// Bindings.h ///
     Bindings::Bindings() : m_lexer(makeUnique<DefaultLexer>()) {}
-    Bindings::Bindings(Bindings&& rhs) = default;
+    Bindings::Bindings(Bindings&& rhs) : Bindings()
+    {
+        *this = coil::move(rhs);
+    }
     Bindings::~Bindings() = default;
 
     Bindings& Bindings::operator=(Bindings&& rhs) = default;
-- 
2.43.0


From 4993fc57ed838f9cf7937e7c16b72fd58c01fe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 08/17] fix: StdLibCompat: keep the element alive while
 converting vector<Value>

fromString<Value> returns a reference to its input, which was a temporary
destroyed before the result was copied into the vector.
---
 include/coil/StdLibCompat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/coil/StdLibCompat.h b/include/coil/StdLibCompat.h
index c54c2d9..7abee40 100644
--- a/include/coil/StdLibCompat.h
+++ b/include/coil/StdLibCompat.h
@@ -50,7 +50,8 @@ namespace coil
 
             for (StringView subvalue : input.subvalues)
             {
-                auto expectedArg = TypeSerializer<T>::fromString(subvalue);
+                Value const element{subvalue}; // the converted argument may refer to it
+                auto expectedArg = TypeSerializer<T>::fromString(element);
                 if (!expectedArg)
                     return errors::createGenericError<std::vector<T>>(input, coil::move(expectedArg).error());
                 result.push_back(*coil::move(expectedArg));
-- 
2.43.0


From d461932e789a837ac93fe90da6e1547793bbebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 09/17] fix: UnorderedMap: don't divide by zero when there are
 no buckets

A map without buckets (constructed with zero buckets, moved-from, or rehashed to
size() * 2 while empty because of a load factor below 1) computed 'hash % 0'.
---
 include/coil/detail/UnorderedMap.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/coil/detail/UnorderedMap.h b/include/coil/detail/UnorderedMap.h
index de984f0..0098c84 100644
--- a/include/coil/detail/UnorderedMap.h
+++ b/include/coil/detail/UnorderedMap.h
@@ -147,8 +147,8 @@ namespace coil
 
             size_t nextSize = size() + 1;
             float nextLoadFactor = 1.0f * nextSize / m_buckets.size();
-            if (nextLoadFactor > m_maxLoadFactor)
-                rehash(size() * 2);
+            if (m_buckets.empty() || nextLoadFactor > m_maxLoadFactor)
+                rehash(m_nodes.empty() ? 1 : size() * 2);
 
             size_t newNodeIndex = m_nodes.size();
             m_nodes.pushBack({KeyValuePair<K, V>{coil::move(key), coil::move(value)}, invalidIndex, invalidIndex, invalidIndex});
@@ -314,6 +314,9 @@ namespace coil
         template<typename T>
         size_t findNodeIndex(T const& key) const
         {
+            if (m_buckets.empty())
+                return invalidIndex;
+
             size_t bucketIndex = computeBucketIndex(key);
             COIL_ASSERT(bucketIndex < m_buckets.size());
 
-- 
2.43.0


From 6a51df8ef715fdbd163b12a971dcd663b81178a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 10/17] fix: Buffer: keep the chunk size of a moved-from buffer

A moved-from buffer had a chunk size of zero, so copying a moved-from String
triggered an assert.
---
 src/Buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Buffer.cpp b/src/Buffer.cpp
index cd5a763..8cd6157 100644
--- a/src/Buffer.cpp
+++ b/src/Buffer.cpp
@@ -14,7 +14,7 @@ coil::Buffer::Buffer(Buffer const& rhs) : Buffer(rhs.m_capacity, rhs.m_chunkSize
     m_size = rhs.m_size;
 }
 
-coil::Buffer::Buffer(Buffer&& rhs)
+coil::Buffer::Buffer(Buffer&& rhs) : m_chunkSize(rhs.m_chunkSize)
 {
     rhs.swap(*this);
 }
-- 
2.43.0


From bc5275d2a2e8a158e5105e3b1e89d5216168c4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 11/17] fix: DefaultLexer: support delimiters outside of ASCII

The delimiters were compared as char with an unsigned char, so with a signed char
a configured delimiter above 0x7F never matched.
---
 src/DefaultLexer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DefaultLexer.cpp b/src/DefaultLexer.cpp
index eb656c8..a7faa44 100644
--- a/src/DefaultLexer.cpp
+++ b/src/DefaultLexer.cpp
@@ -53,12 +53,12 @@ coil::Expected<coil::ExecutionInput, coil::String> coil::DefaultLexer::parse(Str
 
 bool coil::DefaultLexer::isGroupChar(unsigned char c) const
 {
-    return coil::find(m_groupParentheses.begin(), m_groupParentheses.end(), c) != m_groupParentheses.end();
+    return coil::find(m_groupParentheses.begin(), m_groupParentheses.end(), static_cast<char>(c)) != m_groupParentheses.end();
 }
 
 bool coil::DefaultLexer::isQuote(unsigned char c) const
 {
-    return coil::find(m_quotes.begin(), m_quotes.end(), c) != m_quotes.end();
+    return coil::find(m_quotes.begin(), m_quotes.end(), static_cast<char>(c)) != m_quotes.end();
 }
 
 bool coil::DefaultLexer::isGroupSeparator(unsigned char c) const
@@ -66,12 +66,12 @@ bool coil::DefaultLexer::isGroupSeparator(unsigned char c) const
     if (isSpace(c))
         return true;
 
-    return coil::find(m_groupSeparators.begin(), m_groupSeparators.end(), c) != m_groupSeparators.end();
+    return coil::find(m_groupSeparators.begin(), m_groupSeparators.end(), static_cast<char>(c)) != m_groupSeparators.end();
 }
 
 bool coil::DefaultLexer::isSpace(unsigned char c) const
 {
-    return coil::find(m_spaceCharacters.begin(), m_spaceCharacters.end(), c) != m_spaceCharacters.end();
+    return coil::find(m_spaceCharacters.begin(), m_spaceCharacters.end(), static_cast<char>(c)) != m_spaceCharacters.end();
 }
 
 coil::DefaultLexer::CharType coil::DefaultLexer::getCharType(unsigned char c) const
-- 
2.43.0


From 5138a276e376b7fd7bfd0f361478f1d3f63036ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 12/17] fix: StdLibCompat: accept an empty std::string_view
 without data

A default-constructed std::string_view has a null data pointer, which the
conversion helpers passed on to String and StringView.
---
 include/coil/StdLibCompat.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/coil/StdLibCompat.h b/include/coil/StdLibCompat.h
index 7abee40..1c7ce01 100644
--- a/include/coil/StdLibCompat.h
+++ b/include/coil/StdLibCompat.h
@@ -199,10 +199,16 @@ inline std::string_view coil::toStdStringView(StringView str)
 
 inline coil::String coil::fromStdString(std::string_view str)
 {
+    if (str.empty())
+        return {};
+
     return {str.data(), str.length()};
 }
 
 inline coil::StringView coil::fromStdStringView(std::string_view str)
 {
+    if (str.empty())
+        return {};
+
     return {str.data(), str.length()};
 }
-- 
2.43.0


From 35e61b46d8ed9dd1199c008e191e4060d0c5f907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 13/17] fix: Coil: include stdint.h for the integer aliases

---
 src/Coil.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Coil.cpp b/src/Coil.cpp
index fe84bf4..95fd9a7 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -14,6 +14,7 @@
 
 #include <ctype.h>
 #include <stdarg.h>
+#include <stdint.h>
 #include <stdio.h>
 
 #if COIL_CONFIG_CATCH_EXCEPTIONS
-- 
2.43.0


From 66ef2de0b20ddfb9cf3fadf293283336f24a2a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 14/17] fix: String: a moved-from string is a valid empty
 string

---
 src/String.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index eb8f512..64957db 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -56,7 +56,8 @@ void coil::String::reserve(size_t capacity)
 
 char const* coil::String::cStr() const
 {
-    return m_buffer.data();
+    // a moved-from string has no buffer
+    return m_buffer.size() > 0 ? m_buffer.data() : "";
 }
 
 char* coil::String::data()
@@ -66,7 +67,7 @@ char* coil::String::data()
 
 char const* coil::String::data() const
 {
-    return m_buffer.data();
+    return cStr();
 }
 
 char& coil::String::back()
@@ -114,8 +115,7 @@ void coil::String::append(char const* str, size_t length)
 
 char const* coil::String::begin() const
 {
-    COIL_ASSERT(m_buffer.size() != 0);
-    return m_buffer.data();
+    return cStr();
 }
 
 char const* coil::String::end() const
-- 
2.43.0


From f9accc1f93a16bae3dba478802f9b4a819f11602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 15/17] fix: don't leak the moved elements when growing a
 vector throws

The new storage was a raw Buffer, which doesn't destroy the elements already
constructed in it when constructing one of them throws.
---
 include/coil/detail/Vector.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/coil/detail/Vector.h b/include/coil/detail/Vector.h
index 4debe69..503d22b 100644
--- a/include/coil/detail/Vector.h
+++ b/include/coil/detail/Vector.h
@@ -262,17 +262,15 @@ bool coil::Vector<T>::operator==(Vector const& rhs) const
 template<typename T>
 void coil::Vector<T>::grow(size_t newCapacity)
 {
-    Buffer buffer{newCapacity, sizeof(T)};
+    // owns the constructed elements in case constructing one of them throws
+    Vector temp{newCapacity};
 
     for (size_t i = 0; i < m_buffer.size(); i++)
-        buffer.constructNext<T>(coil::move(*m_buffer.get<T>(i)));
+        temp.m_buffer.template constructNext<T>(coil::move(*m_buffer.get<T>(i)));
 
-    COIL_ASSERT(m_buffer.size() == buffer.size());
+    COIL_ASSERT(m_buffer.size() == temp.m_buffer.size());
 
-    while (m_buffer.size() > 0)
-        m_buffer.destructLast<T>();
-
-    m_buffer = coil::move(buffer);
+    m_buffer = coil::move(temp.m_buffer);
 
     COIL_ASSERT(m_buffer.capacity() == newCapacity);
 }
-- 
2.43.0


From 33e9cbcd78d55a4c2b9a2eaf610a1199dd72eb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 16/17] fix: keep an UnorderedMap consistent when copying its
 nodes throws

The copy assignment replaced the buckets before the nodes, so a throwing copy
left buckets that refer to nodes the map doesn't have.
---
 include/coil/detail/UnorderedMap.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/coil/detail/UnorderedMap.h b/include/coil/detail/UnorderedMap.h
index 0098c84..e9968d4 100644
--- a/include/coil/detail/UnorderedMap.h
+++ b/include/coil/detail/UnorderedMap.h
@@ -120,6 +120,17 @@ namespace coil
             rehash(bucketsCount);
         }
 
+        UnorderedMap(UnorderedMap const& rhs) = default;
+        UnorderedMap(UnorderedMap&& rhs) = default;
+
+        UnorderedMap& operator=(UnorderedMap const& rhs)
+        {
+            // copying may throw, and the buckets must match the nodes then
+            UnorderedMap temp{rhs};
+            return (*this = coil::move(temp));
+        }
+        UnorderedMap& operator=(UnorderedMap&& rhs) = default;
+
         ConstIterator begin() const
         {
             return {m_nodes.begin()};
-- 
2.43.0


From 7b6e7a7bbd5f4f560a7772ab4d081ff6753aa935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:35 +0000
Subject: [PATCH 17/17] fix: don't leave the old elements of a growing vector
 to the temporary

Growing relied on the buffers being swapped by the move assignment.
---
 include/coil/detail/Vector.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/coil/detail/Vector.h b/include/coil/detail/Vector.h
index 503d22b..cd92746 100644
--- a/include/coil/detail/Vector.h
+++ b/include/coil/detail/Vector.h
@@ -270,6 +270,9 @@ void coil::Vector<T>::grow(size_t newCapacity)
 
     COIL_ASSERT(m_buffer.size() == temp.m_buffer.size());
 
+    while (m_buffer.size() > 0)
+        m_buffer.destructLast<T>();
+
     m_buffer = coil::move(temp.m_buffer);
 
     COIL_ASSERT(m_buffer.capacity() == newCapacity);
-- 
2.43.0

