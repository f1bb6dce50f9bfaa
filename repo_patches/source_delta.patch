From 4fe8c58c95af14b46bca430457f2f1dd1a19d4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 01/10] fix: relink the successor of the node moved by
 UnorderedMap::erase

The last node takes the place of the erased one, but only its predecessor
was told about the new index; the successor kept pointing to the old one,
so that erasing it later unlinked a wrong node.
---
 include/coil/detail/UnorderedMap.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/coil/detail/UnorderedMap.h b/include/coil/detail/UnorderedMap.h
index fa8a9c5..de984f0 100644
--- a/include/coil/detail/UnorderedMap.h
+++ b/include/coil/detail/UnorderedMap.h
@@ -208,6 +208,12 @@ namespace coil
                     m_buckets[lastNode.bucket] = nodeIndex;
                 }
 
+                if (lastNode.next != invalidIndex)
+                {
+                    COIL_ASSERT(lastNode.next < m_nodes.size());
+                    m_nodes[lastNode.next].prev = nodeIndex;
+                }
+
                 coil::exchange(erasedNode, lastNode);
             }
 
-- 
2.43.0


From c9b47cade3cd4190c81818086912472cdcc83ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 02/10] fix: don't strip a lone quote in a group twice

A group element consisting of a single quote was taken for both the opening
and the closing quote, giving a subvalue of length -1.
---
 src/DefaultLexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DefaultLexer.cpp b/src/DefaultLexer.cpp
index e8efbaf..eb656c8 100644
--- a/src/DefaultLexer.cpp
+++ b/src/DefaultLexer.cpp
@@ -111,7 +111,7 @@ coil::Vector<coil::StringView> coil::DefaultLexer::splitGroup(StringView str) co
         }
 
         size_t stringEnd = i;
-        if (isQuote(str[stringBegin]) && isQuote(str[stringEnd - 1]))
+        if (stringEnd - stringBegin >= 2 && isQuote(str[stringBegin]) && isQuote(str[stringEnd - 1]))
         {
             stringBegin++;
             stringEnd--;
-- 
2.43.0


From afc35fec07d65272fc9b7ba7c4281579e609cd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 03/10] fix: allow appending a part of a string to itself

String::append read the source range after the buffer it belongs to had been
reallocated and freed.
---
 src/String.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index b6da60a..a36c496 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -101,8 +101,14 @@ void coil::String::append(char const* str, size_t length)
     validateIsNullTerminated();
 
     size_t oldSize = this->length();
+
+    // the appended range may be a part of this string; in that case it moves along with the buffer
+    char const* oldData = m_buffer.data();
+    bool const isOwnRange = oldData && str >= oldData && str <= oldData + oldSize;
+    size_t const ownOffset = isOwnRange ? str - oldData : 0;
+
     resize(oldSize + length);
-    memcpy(m_buffer.data() + oldSize, str, length);
+    memcpy(m_buffer.data() + oldSize, isOwnRange ? m_buffer.data() + ownOffset : str, length);
 
     validateIsNullTerminated();
 }
-- 
2.43.0


From c27b0a5897eb17ae77f6cee4c3e279aeb57ea86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 04/10] fix: handle failures of vsnprintf

A negative result (e.g. for a wide character which can't be represented in
the current locale) was taken for a length, so that a terminator was written
before the beginning of the buffer, or stray memory was returned.
---
 src/Coil.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/Coil.cpp b/src/Coil.cpp
index d8c2846..a45469e 100644
--- a/src/Coil.cpp
+++ b/src/Coil.cpp
@@ -607,15 +607,20 @@ namespace coil
     {
         va_list args2;
         va_copy(args2, args);
-        size_t stringSize = static_cast<size_t>(vsnprintf(nullptr, 0, format, args2));
+        int const stringSize = vsnprintf(nullptr, 0, format, args2);
         va_end(args2);
 
         String str;
-        str.resize(stringSize);
+        if (stringSize < 0)
+            return str; // the text can't be formatted
 
-        [[maybe_unused]] int result = vsnprintf(str.data(), str.length() + 1, format, args);
+        str.resize(static_cast<size_t>(stringSize));
 
-        COIL_ASSERT(result >= 0 && static_cast<size_t>(result) <= str.length());
+        int const result = vsnprintf(str.data(), str.length() + 1, format, args);
+        if (result < 0)
+            return {};
+
+        COIL_ASSERT(static_cast<size_t>(result) <= str.length());
 
         return str;
     }
-- 
2.43.0


From cafb2ff9edc6a40d95b1efc9eb44246fe0da5cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 05/10] fix: keep the previous value if copy assignment of
 Expected throws

The previous value was destroyed before the new one was copied; if the copy
failed, the object was left without any live value.
---
 include/coil/detail/Expected.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/coil/detail/Expected.h b/include/coil/detail/Expected.h
index 272b219..8bc3606 100644
--- a/include/coil/detail/Expected.h
+++ b/include/coil/detail/Expected.h
@@ -58,9 +58,13 @@ namespace coil
         void constructFrom(Expected<T, E>&& rhs);
         void destruct();
 
+        // separate storages, so that a new alternative can be constructed before the current one is destructed
         union
         {
             T m_expected;
+        };
+        union
+        {
             Unexpected<E> m_unexpected;
         };
         bool m_hasValue = true;
@@ -109,10 +113,18 @@ coil::Expected<T, E>& coil::Expected<T, E>::operator=(Expected<T, E> const& rhs)
     {
         m_unexpected = rhs.m_unexpected;
     }
+    else if (rhs.m_hasValue)
+    {
+        // construct first: if it throws, this object should keep its value
+        new (NewTag{}, &m_expected) T(rhs.m_expected);
+        m_unexpected.~Unexpected<E>();
+        m_hasValue = true;
+    }
     else
     {
-        destruct();
-        constructFrom(rhs);
+        new (NewTag{}, &m_unexpected) Unexpected<E>(rhs.m_unexpected);
+        m_expected.~T();
+        m_hasValue = false;
     }
 
     return *this;
-- 
2.43.0


From 70976345d5fee8f1a08fb53bc6cf1610b5ff7be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 06/10] fix: reject negative numbers after spaces for unsigned
 arguments

' -5' was accepted as an unsigned integer and wrapped around.
---
 src/StringConv.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/StringConv.cpp b/src/StringConv.cpp
index 6a0e214..2dd5caa 100644
--- a/src/StringConv.cpp
+++ b/src/StringConv.cpp
@@ -4,6 +4,7 @@
 #include "coil/detail/StringView.h"
 #include "coil/detail/Utils.h"
 
+#include <ctype.h>
 #include <errno.h>
 #include <limits.h>
 #include <stdlib.h>
@@ -49,11 +50,15 @@ namespace
         if (str.empty())
             return false;
 
-        if (str[0] == '-')
-            return false;
-
         coil::String strCopy = coil::String{str}; // make a C-string to avoid reimplementing strtoX functions
 
+        // strtoX functions skip leading spaces and negate the value after a minus sign
+        char const* begin = strCopy.begin();
+        while (isspace(static_cast<unsigned char>(*begin)))
+            begin++;
+        if (*begin == '-')
+            return false;
+
         char* end = nullptr;
         errno = 0;
         value = strtoxfunc<T>(strCopy.cStr(), &end, 10);
-- 
2.43.0


From c4519b5f6915a06fde3db72489469008161035ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 07/10] fix: don't divide by zero in a hash map without buckets

The first insertion into a map with a load factor below 1 rehashed it to zero
buckets; a map created with zero buckets or moved from has none either.
---
 include/coil/detail/UnorderedMap.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/coil/detail/UnorderedMap.h b/include/coil/detail/UnorderedMap.h
index de984f0..241df81 100644
--- a/include/coil/detail/UnorderedMap.h
+++ b/include/coil/detail/UnorderedMap.h
@@ -148,7 +148,7 @@ namespace coil
             size_t nextSize = size() + 1;
             float nextLoadFactor = 1.0f * nextSize / m_buckets.size();
             if (nextLoadFactor > m_maxLoadFactor)
-                rehash(size() * 2);
+                rehash(nextSize * 2);
 
             size_t newNodeIndex = m_nodes.size();
             m_nodes.pushBack({KeyValuePair<K, V>{coil::move(key), coil::move(value)}, invalidIndex, invalidIndex, invalidIndex});
@@ -314,6 +314,9 @@ namespace coil
         template<typename T>
         size_t findNodeIndex(T const& key) const
         {
+            if (m_buckets.empty())
+                return invalidIndex;
+
             size_t bucketIndex = computeBucketIndex(key);
             COIL_ASSERT(bucketIndex < m_buckets.size());
 
-- 
2.43.0


From 69aec58cdf20f7ec09b9ef023e92eaf0de3efee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 08/10] fix: keep the hash map intact if copy assignment throws

Memberwise assignment replaced the buckets before copying the nodes, which
may throw, and left buckets pointing to nodes which don't exist.
---
 include/coil/detail/UnorderedMap.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/coil/detail/UnorderedMap.h b/include/coil/detail/UnorderedMap.h
index 241df81..211a4d3 100644
--- a/include/coil/detail/UnorderedMap.h
+++ b/include/coil/detail/UnorderedMap.h
@@ -120,6 +120,17 @@ namespace coil
             rehash(bucketsCount);
         }
 
+        UnorderedMap(UnorderedMap const& rhs) = default;
+        UnorderedMap(UnorderedMap&& rhs) = default;
+
+        UnorderedMap& operator=(UnorderedMap const& rhs)
+        {
+            // copy first: buckets and nodes should be replaced together or not at all
+            UnorderedMap temp{rhs};
+            return (*this = coil::move(temp));
+        }
+        UnorderedMap& operator=(UnorderedMap&& rhs) = default;
+
         ConstIterator begin() const
         {
             return {m_nodes.begin()};
-- 
2.43.0


From a9bacee46db681817eee076ea303891a49ae84fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 09/10] fix: destruct the copied elements if growing a vector
 throws

For elements without a move constructor growing means copying; if it threw,
the elements copied so far were never destructed.
---
 include/coil/detail/Vector.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/coil/detail/Vector.h b/include/coil/detail/Vector.h
index 4debe69..61ebf62 100644
--- a/include/coil/detail/Vector.h
+++ b/include/coil/detail/Vector.h
@@ -262,17 +262,15 @@ bool coil::Vector<T>::operator==(Vector const& rhs) const
 template<typename T>
 void coil::Vector<T>::grow(size_t newCapacity)
 {
-    Buffer buffer{newCapacity, sizeof(T)};
+    // a vector and not a buffer, so that already constructed elements are destructed if copying of the next one throws
+    Vector temp{newCapacity};
 
     for (size_t i = 0; i < m_buffer.size(); i++)
-        buffer.constructNext<T>(coil::move(*m_buffer.get<T>(i)));
+        temp.m_buffer.template constructNext<T>(coil::move(*m_buffer.get<T>(i)));
 
-    COIL_ASSERT(m_buffer.size() == buffer.size());
+    COIL_ASSERT(m_buffer.size() == temp.size());
 
-    while (m_buffer.size() > 0)
-        m_buffer.destructLast<T>();
-
-    m_buffer = coil::move(buffer);
+    m_buffer = coil::move(temp.m_buffer); // swaps the buffers; the old elements are destructed along with temp
 
     COIL_ASSERT(m_buffer.capacity() == newCapacity);
 }
-- 
2.43.0


From 32fee36409724ceb62c19c7038e0ab8844eb9866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 10/10] fix: give a hash map buckets also with an unlimited
 load factor

0/0 and x/0 aren't greater than an infinite load factor, so nothing allocated
the first buckets and the insertion divided by zero.
---
 include/coil/detail/UnorderedMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/coil/detail/UnorderedMap.h b/include/coil/detail/UnorderedMap.h
index 211a4d3..2f72a0c 100644
--- a/include/coil/detail/UnorderedMap.h
+++ b/include/coil/detail/UnorderedMap.h
@@ -158,7 +158,7 @@ namespace coil
 
             size_t nextSize = size() + 1;
             float nextLoadFactor = 1.0f * nextSize / m_buckets.size();
-            if (nextLoadFactor > m_maxLoadFactor)
+            if (m_buckets.empty() || nextLoadFactor > m_maxLoadFactor)
                 rehash(nextSize * 2);
 
             size_t newNodeIndex = m_nodes.size();
-- 
2.43.0

