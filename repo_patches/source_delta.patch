From 66989f2a1bc03eac36df3c3142bcb5e92e2c1251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:06 +0000
Subject: [PATCH 01/54] fix: vector copy constructor counts only the elements
 it has constructed

---
 include/cest/vector.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index ffea2bb..b08233d 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -42,9 +42,8 @@ public:
   constexpr vector(const vector& other) : vector()
   {
     reserve(other.capacity());
-    m_size = other.size();
-    for (size_type i = 0; i < m_size; i++)
-      std::construct_at(&m_p[i], other.m_p[i]);
+    for (; m_size < other.size(); m_size++)
+      std::construct_at(&m_p[m_size], other.m_p[m_size]);
   }
 
   constexpr vector(vector&& other) : vector()
-- 
2.43.0


From 19b255c4edde6c551eeeb4514711aa8b30e37b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:06 +0000
Subject: [PATCH 02/54] fix: vector count and initializer-list constructors
 release everything when an element throws

---
 include/cest/vector.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index b08233d..d2773bf 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -53,18 +53,19 @@ public:
 
   constexpr vector(size_type count,
                    const Allocator& alloc = Allocator())
-    : m_size{}, m_capacity{}, m_p{}, m_alloc(alloc)
+    : vector() // delegation: the destructor cleans up if what follows throws
   {
+    m_alloc = alloc;
     reserve(count);
-    m_size = count;
-    for (size_type i = 0; i < m_size; i++)
-      std::construct_at(&m_p[i]);
+    for (; m_size < count; m_size++)
+      std::construct_at(&m_p[m_size]);
   }
 
   constexpr vector(std::initializer_list<T> init,
                    const Allocator& alloc = Allocator())
-    : m_size{}, m_capacity{}, m_p{}, m_alloc(alloc)
+    : vector() // delegation: the destructor cleans up if what follows throws
   {
+    m_alloc = alloc;
     for (const auto &x : init) { push_back(x); }
   }
 
-- 
2.43.0


From 7e72fb309c8f609b1b07bce270c1cc85874bd9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:06 +0000
Subject: [PATCH 03/54] fix: vector assignment and resize keep track of new
 elements when one throws

---
 include/cest/vector.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index d2773bf..a4e72ca 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -89,8 +89,8 @@ public:
     if (other.size() >= m_size) {
       for (; i < m_size; i++)
         m_p[i] = other.m_p[i];
-      for (; i < other.size(); i++)
-        std::construct_at(&m_p[i], other.m_p[i]);
+      for (; m_size < other.size(); m_size++)
+        std::construct_at(&m_p[m_size], other.m_p[m_size]);
     } else {
       for (; i < other.size(); i++)
         m_p[i] = other.m_p[i];
@@ -126,8 +126,15 @@ public:
     if (count > m_size)
     {
       reserve(count);
-      for (size_type i = m_size; i < count; i++)
-        std::construct_at(&m_p[i]);
+      const size_type old_size = m_size;
+      try {
+        for (; m_size < count; m_size++)
+          std::construct_at(&m_p[m_size]);
+      } catch (...) {
+        std::destroy_n(&m_p[old_size], m_size - old_size);
+        m_size = old_size;
+        throw;
+      }
     } else if (count < m_size) {
       std::destroy_n(&m_p[count], m_size-count);
     }
-- 
2.43.0


From c648a6ed5ee51fbcd528a8453b7ba1ab1003e625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:06 +0000
Subject: [PATCH 04/54] fix: vector reserve releases the new buffer when an
 element throws

---
 include/cest/vector.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index a4e72ca..6f1a13e 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -110,8 +110,15 @@ public:
     if (new_cap > m_capacity)
     {
       value_type *p = m_alloc.allocate(new_cap);
-      for (size_type i = 0; i < m_size; i++)
-        std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
+      size_type i = 0;
+      try {
+        for (; i < m_size; i++)
+          std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
+      } catch (...) {
+        std::destroy_n(p, i);
+        m_alloc.deallocate(p, new_cap);
+        throw;
+      }
       if (0 != m_capacity) {
         std::destroy_n(m_p,m_size);
         m_alloc.deallocate(m_p,m_capacity);
-- 
2.43.0


From f1146a471904201879cc30f2c301a2c9e8d3a1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:06 +0000
Subject: [PATCH 05/54] fix: vector push_back counts the new element only once
 it exists

---
 include/cest/vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index 6f1a13e..d87ab90 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -205,7 +205,8 @@ public:
     } else if (m_capacity == m_size) {
       reserve(m_capacity * 2);
     }
-    std::construct_at(&m_p[m_size++],value);
+    std::construct_at(&m_p[m_size],value);
+    m_size++;
   }
 
   constexpr void push_back(value_type &&value)
@@ -215,7 +216,8 @@ public:
     } else if (m_capacity == m_size) {
       reserve(m_capacity * 2);
     }
-    std::construct_at(&m_p[m_size++],std::forward<T>(value));
+    std::construct_at(&m_p[m_size],std::forward<T>(value));
+    m_size++;
   }
 
   constexpr iterator erase(iterator first, iterator last)
-- 
2.43.0


From 1a94f56558786b81ce16caeabf9e31d32e5f604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:06 +0000
Subject: [PATCH 06/54] fix: vector push_back of one of the vector's own
 elements survives growth

---
 include/cest/vector.hpp | 56 +++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index d87ab90..dbbaf06 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -108,24 +108,7 @@ public:
   constexpr void reserve(size_type new_cap)
   {
     if (new_cap > m_capacity)
-    {
-      value_type *p = m_alloc.allocate(new_cap);
-      size_type i = 0;
-      try {
-        for (; i < m_size; i++)
-          std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
-      } catch (...) {
-        std::destroy_n(p, i);
-        m_alloc.deallocate(p, new_cap);
-        throw;
-      }
-      if (0 != m_capacity) {
-        std::destroy_n(m_p,m_size);
-        m_alloc.deallocate(m_p,m_capacity);
-      }
-      m_p = p;
-      m_capacity = new_cap;
-    }
+      reallocate(new_cap);
   }
 
   constexpr void resize(size_type count)
@@ -201,9 +184,9 @@ public:
   constexpr void push_back(const value_type &value)
   {
     if (0 == m_capacity) {
-      reserve(1);
+      return reallocate(1, value);
     } else if (m_capacity == m_size) {
-      reserve(m_capacity * 2);
+      return reallocate(m_capacity * 2, value);
     }
     std::construct_at(&m_p[m_size],value);
     m_size++;
@@ -212,14 +195,43 @@ public:
   constexpr void push_back(value_type &&value)
   {
     if (0 == m_capacity) {
-      reserve(1);
+      return reallocate(1, std::forward<T>(value));
     } else if (m_capacity == m_size) {
-      reserve(m_capacity * 2);
+      return reallocate(m_capacity * 2, std::forward<T>(value));
     }
     std::construct_at(&m_p[m_size],std::forward<T>(value));
     m_size++;
   }
 
+  // Move to a buffer of new_cap elements. A further element is first appended
+  // there from args, if any; as args may refer to an element of this vector.
+  template <class... Args>
+  constexpr void reallocate(size_type new_cap, Args&&... args)
+  {
+    value_type *p = m_alloc.allocate(new_cap);
+    size_type i = 0, num_new = 0;
+    try {
+      if constexpr (sizeof...(Args) > 0) {
+        std::construct_at(&p[m_size], std::forward<Args>(args)...);
+        num_new = 1;
+      }
+      for (; i < m_size; i++)
+        std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
+    } catch (...) {
+      std::destroy_n(p, i);
+      if (num_new) std::destroy_n(&p[m_size], num_new);
+      m_alloc.deallocate(p, new_cap);
+      throw;
+    }
+    if (0 != m_capacity) {
+      std::destroy_n(m_p,m_size);
+      m_alloc.deallocate(m_p,m_capacity);
+    }
+    m_p = p;
+    m_capacity = new_cap;
+    m_size += num_new;
+  }
+
   constexpr iterator erase(iterator first, iterator last)
   {
     iterator it1 = first, it2 = last;
-- 
2.43.0


From 135b18eb47a1a5da03f8a2e836ed9cb871e55138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:54 +0000
Subject: [PATCH 07/54] fix: string assignment survives a failed allocation and
 a source inside itself

---
 include/cest/string.hpp | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 121a071..68347f8 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -219,19 +219,7 @@ public:
   constexpr basic_string& operator=(const CharT* s)
   {
     //const CharT* s  = str.c_str();
-    size_type count = traits_type::length(s);
-
-    if (m_capacity < count+1) {
-      m_alloc.deallocate(m_p, m_capacity+1);
-      m_capacity = count+1;                    // ensure m_capacity is not 0
-      m_p = m_alloc.allocate(m_capacity+1);    // +1 for the null terminator
-      for (size_type i = 0; i < m_capacity+1; i++)
-        std::construct_at(&m_p[i]);
-    }
-    
-    traits_type::copy(m_p, s, count+1);
-    m_size = count;
-    return *this;
+    return replace_with(s, traits_type::length(s));
   }
 
   constexpr basic_string& operator=(const basic_string& str) {
@@ -278,6 +266,26 @@ public:
 
 private:
 
+  // s may point into this string
+  constexpr basic_string& replace_with(const CharT* s, size_type count)
+  {
+    if (m_capacity < count+1) {
+      const size_type new_cap = count+1;       // ensure m_capacity is not 0
+      value_type *p = m_alloc.allocate(new_cap+1); // +1 for the null terminator
+      for (size_type i = 0; i < new_cap+1; i++)
+        std::construct_at(&p[i]);
+      traits_type::copy(p, s, count);
+      m_alloc.deallocate(m_p, m_capacity+1);
+      m_p = p;
+      m_capacity = new_cap;
+    } else {
+      traits_type::move(m_p, s, count);
+    }
+
+    traits_type::assign(this->data()[m_size = count], CharT());
+    return *this;
+  }
+
   static constexpr int _S_compare(size_type n1, size_type n2) noexcept
   {
     const difference_type d = difference_type(n1 - n2);
-- 
2.43.0


From 18c08b58d9c770198b828bf921f1061c0944ac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:54 +0000
Subject: [PATCH 08/54] fix: copying a string keeps the characters after a zero

---
 include/cest/string.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 68347f8..28b0ef0 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -62,7 +62,8 @@ public:
   constexpr basic_string(const CharT* s, const Allocator &alloc = Allocator())
   : basic_string(s, traits_type::length(s), alloc) {}
 
-  constexpr basic_string(const basic_string& str) : basic_string(str.c_str()) {}
+  constexpr basic_string(const basic_string& str)
+  : basic_string(str.data(), str.size()) {}
 
   template <class InputIt>
   constexpr basic_string(InputIt __beg, InputIt __end,
@@ -223,7 +224,7 @@ public:
   }
 
   constexpr basic_string& operator=(const basic_string& str) {
-    return this->operator=(str.c_str());
+    return replace_with(str.data(), str.size());
   }
 
   constexpr void reserve(size_type new_cap)
-- 
2.43.0


From 68d41ff0d202a78d759f12e6f8521ac3d05f5f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:54 +0000
Subject: [PATCH 09/54] fix: string default construction reports a failed
 allocation instead of terminating

---
 include/cest/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 28b0ef0..3dc041f 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -34,11 +34,11 @@ public:
 
   static const size_type npos = static_cast<size_type>(-1);
 
-  constexpr basic_string() noexcept(noexcept( Allocator() )) :
+  constexpr basic_string() :
     basic_string( Allocator() ) {}
 
   explicit constexpr
-  basic_string(const Allocator& alloc) noexcept : m_alloc(alloc)
+  basic_string(const Allocator& alloc) : m_alloc(alloc)
   {
     m_capacity = 1;                                // Unlike 0, a scalable value
     m_p = m_alloc.allocate(m_capacity+1);          // +1 for the null terminator
-- 
2.43.0


From 8dd4f2637589f0a06f0891d4e3bbc7b79cc40ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:54 +0000
Subject: [PATCH 10/54] fix: string construction from input iterators handles
 an empty range and a throwing iterator

---
 include/cest/string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 3dc041f..7f34824 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -67,7 +67,8 @@ public:
 
   template <class InputIt>
   constexpr basic_string(InputIt __beg, InputIt __end,
-                         const Allocator& alloc = Allocator()) : m_alloc(alloc)
+                         const Allocator& alloc = Allocator())
+  : basic_string(alloc)
   {
     static_assert(std::is_same_v<
       std::input_iterator_tag,
-- 
2.43.0


From a7220e5b91411fb58a4dc63392c631e90c5e51ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:54 +0000
Subject: [PATCH 11/54] fix: string push_back of one of its own characters
 survives growth

---
 include/cest/string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 7f34824..897e222 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -180,9 +180,10 @@ public:
   }
 
   constexpr void push_back(const value_type &value) {
+    const value_type ch = value; // value may refer into this string
     if (m_size + 1 > m_capacity)
       reserve(m_capacity * 2);
-    traits_type::assign(this->data()[  m_size], value);
+    traits_type::assign(this->data()[  m_size], ch);
     traits_type::assign(this->data()[++m_size], CharT()); // null terminator
   }
 
-- 
2.43.0


From ecf241d954eb4b2e3b17cd1c9a1bd7e48447a851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:54 +0000
Subject: [PATCH 12/54] fix: string find of a character starts at the given
 position

---
 include/cest/string.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 897e222..33807a2 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -141,8 +141,9 @@ public:
     return this->find(str.data(), pos);
   }
 
-  constexpr size_type find(CharT ch, size_type /*pos*/ = 0) const noexcept {
-    auto *p = traits_type::find(this->data(), this->size(), ch);
+  constexpr size_type find(CharT ch, size_type pos = 0) const noexcept {
+    if (pos >= this->size()) return npos;
+    auto *p = traits_type::find(this->data() + pos, this->size() - pos, ch);
     return p ? (p-this->data()) : npos;
   }
 
-- 
2.43.0


From bcf3e2ee835c9e40fba19d859a73d54e5b3aa0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:54 +0000
Subject: [PATCH 13/54] fix: string find of a string uses all its characters

---
 include/cest/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 33807a2..1f4fa81 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -138,7 +138,7 @@ public:
 
   constexpr
   size_type find(const basic_string &str, size_type pos = 0) const noexcept {
-    return this->find(str.data(), pos);
+    return this->find(str.data(), pos, str.size());
   }
 
   constexpr size_type find(CharT ch, size_type pos = 0) const noexcept {
-- 
2.43.0


From 4fbe577065c8244a8e5be7dba051d1b8e94b86e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:54 +0000
Subject: [PATCH 14/54] fix: string append grows geometrically

---
 include/cest/string.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 1f4fa81..91c0a0e 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -197,15 +197,16 @@ public:
         traits_type::copy(this->data() + this->size(), s, count);
     }
     else {
-      value_type *p = m_alloc.allocate(len+1);
-      for (size_type i = 0; i < len+1; i++)
+      const size_type new_cap = std::max(len, 2 * m_capacity);
+      value_type *p = m_alloc.allocate(new_cap+1);
+      for (size_type i = 0; i < new_cap+1; i++)
         std::construct_at(&p[i]);
       traits_type::copy(p, m_p, m_size);
       traits_type::copy(p + m_size, s, count);
       m_alloc.deallocate(m_p, m_capacity+1);
       m_p = p;
       m_size = len;
-      m_capacity = len;
+      m_capacity = new_cap;
     }
 
     traits_type::assign(this->data()[m_size = len], CharT());
-- 
2.43.0


From 3339d7fe9d4a4d8452855cc8acc5e4315805af58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:54 +0000
Subject: [PATCH 15/54] fix: string output keeps the characters after a zero

---
 include/cest/string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 91c0a0e..a509088 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -4,6 +4,7 @@
 #include "ostream.hpp"
 #include "runtime_ostream.hpp"
 #include <string>      // std::char_traits
+#include <string_view> // std::basic_string_view
 #include <memory>      // std::allocator
 #include <iterator>    // std::reverse_iterator
 #include <limits>      // std::numeric_limits
@@ -380,7 +381,8 @@ operator<<(
   basic_ostream<CharT, Traits>& os,
   const basic_string<CharT, Traits, Allocator>& str)
 {
-  impl::runtime_ostream(os, str.c_str());
+  impl::runtime_ostream(os,
+    std::basic_string_view<CharT, Traits>(str.data(), str.size()));
   return os;
 }
 
-- 
2.43.0


From c968bd29de5267b027f7a72885ab7072e2091aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:22 +0000
Subject: [PATCH 16/54] hook: deque chunk size can be set for simulation

---
 include/cest/deque.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 23edbae..eccfaa9 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -6,7 +6,11 @@
 #include <algorithm> // std::rotate
 #include <initializer_list>
 
+#ifdef CEST_SIM_CHUNK_SIZE
+#define CHUNK_SIZE CEST_SIM_CHUNK_SIZE
+#else
 #define CHUNK_SIZE 1024
+#endif
 
 namespace cest {
 
-- 
2.43.0


From 01c9952adbfbccf3f5fe8e16dadef2eeb2902dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:22 +0000
Subject: [PATCH 17/54] fix: deque iterators step back to the end of the
 previous chunk

---
 include/cest/deque.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index eccfaa9..ef4cb5e 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -65,7 +65,7 @@ public:
     constexpr iter&     operator--()                noexcept { // pre-decr
       if (m_p == *m_ppchunk) {
         --m_ppchunk;
-        m_p = *m_ppchunk;
+        m_p = *m_ppchunk + CHUNK_SIZE - 1;
       } else {
         --m_p;
       }
@@ -126,7 +126,7 @@ public:
     constexpr const_iter& operator--()              noexcept { // pre-decr
       if (m_p == *m_ppchunk) {
         --m_ppchunk;
-        m_p = *m_ppchunk;
+        m_p = *m_ppchunk + CHUNK_SIZE - 1;
       } else {
         --m_p;
       }
-- 
2.43.0


From 284f33f84b032802061907e1443ee405405cef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:22 +0000
Subject: [PATCH 18/54] fix: deque iterator difference counts the chunks
 between the iterators

---
 include/cest/deque.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index ef4cb5e..d58913d 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -85,7 +85,7 @@ public:
     constexpr operator-(const iter& __x, const iter& __y) noexcept
     {
       return CHUNK_SIZE
-        * (__x.m_ppchunk - __x.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
+        * (__x.m_ppchunk - __y.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
         + (*__y.m_ppchunk + CHUNK_SIZE - __y.m_p);
     }
 
@@ -146,7 +146,7 @@ public:
     constexpr operator-(const const_iter& __x, const const_iter& __y) noexcept
     {
       return CHUNK_SIZE
-        * (__x.m_ppchunk - __x.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
+        * (__x.m_ppchunk - __y.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
         + (*__y.m_ppchunk + CHUNK_SIZE - __y.m_p);
     }
 
-- 
2.43.0


From 92ef6a2961ee4b4a8f6c38414cf4b7e2259c7bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:22 +0000
Subject: [PATCH 19/54] fix: deque push_back moves on to a chunk that already
 exists

---
 include/cest/deque.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index d58913d..2058dac 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -335,9 +335,9 @@ private:
       {
         value_type *p = m_alloc.allocate(CHUNK_SIZE);
         m_chunks.push_back(p);
-        ++m_back_chunk;
       }
-      
+
+      ++m_back_chunk;
       m_back = 0;
     }
     else
-- 
2.43.0


From a3ab09cef6bb0aa2ea55f8606c275a31a17398ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:22 +0000
Subject: [PATCH 20/54] fix: assigning a deque to itself leaves it unchanged

---
 include/cest/deque.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 2058dac..ff79651 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -185,6 +185,9 @@ public:
 
   constexpr deque& operator=(const deque& other)
   {
+    if (this == &other)
+      return *this;
+
     clear();
     for (size_type i = 0; i < other.size(); ++i)
       push_back(other[i]);
-- 
2.43.0


From 8502097546f46b654bcbb9baab5000475bf6d7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:22 +0000
Subject: [PATCH 21/54] fix: deque does not leak a chunk when its chunk table
 cannot grow

---
 include/cest/deque.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index ff79651..6ab5fa0 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -156,10 +156,9 @@ public:
 
   constexpr deque()
   {
-    value_type *p = m_alloc.allocate(CHUNK_SIZE);
     m_front = CHUNK_SIZE / 2;
     m_back  = CHUNK_SIZE / 2 - 1;
-    m_chunks.push_back(p);
+    add_chunk();
     m_front_chunk = m_back_chunk = 0;
     m_size = 0;
   }
@@ -305,14 +304,24 @@ public:
 
 private:
 
+  constexpr void add_chunk()
+  {
+    m_chunks.push_back(nullptr);
+    try {
+      m_chunks.back() = m_alloc.allocate(CHUNK_SIZE);
+    } catch (...) {
+      m_chunks.pop_back();
+      throw;
+    }
+  }
+
   constexpr void push_front_helper()
   {
     if (m_front == 0)
     {
       if (m_front_chunk == 0)
       {
-        value_type *p = m_alloc.allocate(CHUNK_SIZE);
-        m_chunks.push_back(p);
+        add_chunk();
         std::rotate(m_chunks.rbegin(), m_chunks.rbegin() + 1, m_chunks.rend());
         ++m_back_chunk;
       }
@@ -336,8 +345,7 @@ private:
     {
       if (m_back_chunk == m_chunks.size() - 1)
       {
-        value_type *p = m_alloc.allocate(CHUNK_SIZE);
-        m_chunks.push_back(p);
+        add_chunk();
       }
 
       ++m_back_chunk;
-- 
2.43.0


From 6327c7b459878e3167ccbec9dd6a743bee23cf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:22 +0000
Subject: [PATCH 22/54] fix: deque push counts the new element only once it
 exists

---
 include/cest/deque.hpp | 53 +++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 6ab5fa0..5606185 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -206,26 +206,26 @@ public:
 
   constexpr void push_front( const T& value )
   {
+    std::construct_at(push_front_slot(),           value);
     push_front_helper();
-    std::construct_at(&m_chunks[m_front_chunk][m_front],           value);
   }
 
   constexpr void push_front( T&& value )
   {
+    std::construct_at(push_front_slot(), std::move(value));
     push_front_helper();
-    std::construct_at(&m_chunks[m_front_chunk][m_front], std::move(value));
   }
 
   constexpr void push_back( const T& value )
   {
+    std::construct_at(push_back_slot(),             value);
     push_back_helper();
-    std::construct_at(&m_chunks[m_back_chunk][m_back],             value);
   }
 
   constexpr void push_back( T&& value )
   {
+    std::construct_at(push_back_slot(),   std::move(value));
     push_back_helper();
-    std::construct_at(&m_chunks[m_back_chunk][m_back],   std::move(value));
   }
 
   constexpr void pop_back()
@@ -315,20 +315,40 @@ private:
     }
   }
 
+  // the free slot before the front element
+  constexpr value_type* push_front_slot()
+  {
+    if (m_front != 0)
+      return &m_chunks[m_front_chunk][m_front - 1];
+
+    if (m_front_chunk == 0)
+    {
+      add_chunk();
+      std::rotate(m_chunks.rbegin(), m_chunks.rbegin() + 1, m_chunks.rend());
+      ++m_front_chunk;
+      ++m_back_chunk;
+    }
+
+    return &m_chunks[m_front_chunk - 1][CHUNK_SIZE - 1];
+  }
+
+  // the free slot after the back element
+  constexpr value_type* push_back_slot()
+  {
+    if (m_back != CHUNK_SIZE - 1)
+      return &m_chunks[m_back_chunk][m_back + 1];
+
+    if (m_back_chunk == m_chunks.size() - 1)
+      add_chunk();
+
+    return &m_chunks[m_back_chunk + 1][0];
+  }
+
   constexpr void push_front_helper()
   {
     if (m_front == 0)
     {
-      if (m_front_chunk == 0)
-      {
-        add_chunk();
-        std::rotate(m_chunks.rbegin(), m_chunks.rbegin() + 1, m_chunks.rend());
-        ++m_back_chunk;
-      }
-      else {
-        --m_front_chunk;
-      }
-
+      --m_front_chunk;
       m_front = CHUNK_SIZE - 1;
     }
     else
@@ -343,11 +363,6 @@ private:
   {
     if (m_back == CHUNK_SIZE - 1)
     {
-      if (m_back_chunk == m_chunks.size() - 1)
-      {
-        add_chunk();
-      }
-
       ++m_back_chunk;
       m_back = 0;
     }
-- 
2.43.0


From cd1651795a6d9ef012fcb2b503be4d46136ced87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:22 +0000
Subject: [PATCH 23/54] fix: deque end() designates the slot after the last
 element in every chunk layout

---
 include/cest/deque.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 5606185..d3ab73e 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -266,13 +266,13 @@ public:
     return {&m_chunks[m_front_chunk][m_front], &m_chunks[m_front_chunk]};
   }
   constexpr iterator          end()       noexcept {
-    return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
+    return {&m_chunks[end_chunk()][end_slot()], &m_chunks[end_chunk()]};
   }
   constexpr const_iterator    end() const noexcept {
-    return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
+    return {&m_chunks[end_chunk()][end_slot()], &m_chunks[end_chunk()]};
   }
   constexpr const_iterator   cend() const noexcept {
-    return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
+    return {&m_chunks[end_chunk()][end_slot()], &m_chunks[end_chunk()]};
   }
   constexpr reference       front() {
     return m_chunks[m_front_chunk][m_front];
@@ -304,6 +304,17 @@ public:
 
 private:
 
+  // where the slot after the back element is
+  constexpr size_type end_chunk() const noexcept
+  {
+    return m_back == CHUNK_SIZE - 1 ? m_back_chunk + 1 : m_back_chunk;
+  }
+
+  constexpr size_type end_slot() const noexcept
+  {
+    return m_back == CHUNK_SIZE - 1 ? 0 : m_back + 1;
+  }
+
   constexpr void add_chunk()
   {
     m_chunks.push_back(nullptr);
@@ -335,13 +346,11 @@ private:
   // the free slot after the back element
   constexpr value_type* push_back_slot()
   {
-    if (m_back != CHUNK_SIZE - 1)
-      return &m_chunks[m_back_chunk][m_back + 1];
-
-    if (m_back_chunk == m_chunks.size() - 1)
+    // the slot after the new element must exist too, as end() designates it
+    if (end_slot() == CHUNK_SIZE - 1 && end_chunk() == m_chunks.size() - 1)
       add_chunk();
 
-    return &m_chunks[m_back_chunk + 1][0];
+    return &m_chunks[end_chunk()][end_slot()];
   }
 
   constexpr void push_front_helper()
-- 
2.43.0


From b65da6e9fe28913cb574a0ae654e7f6791bb8dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:43 +0000
Subject: [PATCH 24/54] fix: list post-increment and post-decrement return
 iterators

---
 include/cest/list.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 260725b..1f8596c 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -76,7 +76,7 @@ struct list {
     }
 
     constexpr auto      operator++(int)             noexcept { // post-incr
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr auto&     operator--()                noexcept {
@@ -84,7 +84,7 @@ struct list {
     }
 
     constexpr auto      operator--(int)             noexcept {
-      auto tmp(m_node); --(*this); return tmp; 
+      auto tmp(*this); --(*this); return tmp; 
     }
 
     constexpr bool      operator==(const iter& rhs) const noexcept {
@@ -118,7 +118,7 @@ struct list {
     }
 
     constexpr auto      operator++(int)                   noexcept {
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr auto&     operator--()                      noexcept {
@@ -126,7 +126,7 @@ struct list {
     }
 
     constexpr auto      operator--(int)                   noexcept {
-      auto tmp(m_node); --(*this); return tmp; 
+      auto tmp(*this); --(*this); return tmp; 
     }
 
     constexpr bool      operator==(const const_iter& rhs) const noexcept {
-- 
2.43.0


From d4774f04f2954d08be5007df7588777f64ca6cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:43 +0000
Subject: [PATCH 25/54] fix: forward_list post-increment returns an iterator

---
 include/cest/forward_list.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index e4a1948..3c5ec8a 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -52,7 +52,7 @@ struct forward_list {
     }
 
     constexpr auto      operator++(int)             noexcept { // post-incr
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr bool      operator==(const iter& rhs) const noexcept {
@@ -86,7 +86,7 @@ struct forward_list {
     }
 
     constexpr auto      operator++(int)                   noexcept {
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr bool      operator==(const const_iter& rhs) const noexcept {
-- 
2.43.0


From 9caaf4de7fc8d9b07d74bda523c8dfd3dd0ae291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:43 +0000
Subject: [PATCH 26/54] fix: assigning a list to itself leaves it unchanged

---
 include/cest/list.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 1f8596c..cb05a77 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -147,6 +147,9 @@ struct list {
 
   constexpr list& operator=(const list& other)
   {
+    if (this == &other)
+      return *this;
+
     clear();
     for (auto it = other.cbegin(); it != other.cend(); ++it)
       push_back(*it);
-- 
2.43.0


From fd5dd63508a47dd4efe356cfdaf45f3295756a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:43 +0000
Subject: [PATCH 27/54] fix: list insertion releases the new node when its
 element throws

---
 include/cest/list.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index cb05a77..3205772 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -219,7 +219,12 @@ struct list {
 
     // As an implicit-lifetime type (P0593R6), node construction isn't needed
     //std::construct_at(&new_node->value, value);
-    std::construct_at(new_node, value);
+    try {
+      std::construct_at(new_node, value);
+    } catch (...) {
+      m_node_alloc.deallocate(new_node, 1);
+      throw;
+    }
     // ...actually...it is: that exemption doesn't apply for constexpr.
 
     // List_node_base::_M_hook
@@ -244,7 +249,12 @@ struct list {
     node_base*   p = const_cast<node_base*>(pos.m_node);
     node* new_node = m_node_alloc.allocate(1);
 
-    std::construct_at(new_node, value_type(std::forward<Args>(args)...));
+    try {
+      std::construct_at(new_node, value_type(std::forward<Args>(args)...));
+    } catch (...) {
+      m_node_alloc.deallocate(new_node, 1);
+      throw;
+    }
 
     // List_node_base::_M_hook
     new_node->next = p;
-- 
2.43.0


From d82b7fd3edb4e672fee9b329ff4f1e96f0c40e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:43 +0000
Subject: [PATCH 28/54] fix: forward_list insertion releases the new node when
 its element throws

---
 include/cest/forward_list.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index 3c5ec8a..353580e 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -140,7 +140,12 @@ struct forward_list {
   iterator insert_after(const_iterator pos, const value_type& value) {
     node_base*   p = const_cast<node_base*>(pos.m_node);
     node* new_node = m_node_alloc.allocate(1);
-    p->next        = std::construct_at(new_node,           value, p->next);
+    try {
+      p->next      = std::construct_at(new_node,           value, p->next);
+    } catch (...) {
+      m_node_alloc.deallocate(new_node, 1);
+      throw;
+    }
     return {new_node};
   }
 
@@ -148,7 +153,12 @@ struct forward_list {
   iterator insert_after(const_iterator pos,      value_type&& value) {
     node_base*   p  = const_cast<node_base*>(pos.m_node);
     node* new_node  = m_node_alloc.allocate(1);
-    p->next         = std::construct_at(new_node, std::move(value), p->next);
+    try {
+      p->next       = std::construct_at(new_node, std::move(value), p->next);
+    } catch (...) {
+      m_node_alloc.deallocate(new_node, 1);
+      throw;
+    }
     return {new_node};
   }
 
-- 
2.43.0


From d320b8c9b9e1d1801b5cba5eb3efec915da2582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:43 +0000
Subject: [PATCH 29/54] fix: forward_list copy construction releases its nodes
 when an element throws

---
 include/cest/forward_list.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index 353580e..e5efcf2 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -97,13 +97,13 @@ struct forward_list {
   };
 
   constexpr forward_list() = default;
-  constexpr forward_list(const forward_list& x)
+  constexpr forward_list(const forward_list& x) : forward_list()
   {
     const node_base* from = &x.m_front;
           node_base*   to = &this->m_front;
     while (from->next) {
       const node *nextf = static_cast<node*>(from->next);
-      to->next = std::construct_at(m_node_alloc.allocate(1), nextf->value);
+      insert_after(to, nextf->value);
       from     = from->next;
         to     =   to->next;
     }
-- 
2.43.0


From 3b1406258dcc85bf63ffa3726762dab9d805fe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:13 +0000
Subject: [PATCH 30/54] fix: assigning a set or map to itself leaves it
 unchanged

---
 include/cest/map.hpp | 3 +++
 include/cest/set.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index c31b0fd..34cc5f2 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -168,6 +168,9 @@ public:
 
   constexpr map& operator=(const map& other)
   {
+    if (this == &other)
+      return *this;
+
     clear();
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index f1a86f2..c1cf451 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -109,6 +109,9 @@ public:
 
   constexpr set& operator=(const set& other)
   {
+    if (this == &other)
+      return *this;
+
     clear();
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
-- 
2.43.0


From 24de59cd09af892591cf2c19d5957a6c28d6a1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:13 +0000
Subject: [PATCH 31/54] fix: map iterators follow the tree, not the keys'
 operator==

---
 include/cest/map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index 34cc5f2..ece0031 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -62,7 +62,7 @@ public:
       else 
       {
         node *pn = curr_node->p;
-        while (pn && pn->r && curr_node->x.first == pn->r->x.first)
+        while (pn && pn->r && curr_node==pn->r)
         {
           curr_node = pn;
           pn = pn->p;
@@ -117,7 +117,7 @@ public:
       else 
       {
         node *pn = curr_node->p;
-        while (pn && pn->r && curr_node->x.first == pn->r->x.first)
+        while (pn && pn->r && curr_node==pn->r)
         {
           curr_node = pn;
           pn = pn->p;
-- 
2.43.0


From 3d896592dd04a22297702a064a8a9113bb08d8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:13 +0000
Subject: [PATCH 32/54] fix: map find with a transparent comparator compiles

---
 include/cest/map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index ece0031..b1289b0 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -248,7 +248,7 @@ public:
       else                             {              break; }
     }
 
-    return {n};
+    return iterator(n);
   }
 
   template <class K>
@@ -262,7 +262,7 @@ public:
       else                             {              break; }
     }
 
-    return {n};
+    return const_iterator(n);
   }
 
   constexpr void rotate_left(node *&n) {
-- 
2.43.0


From 1dfa7ed0ef1d7a37df212ffe8cb6c82fa16d247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:13 +0000
Subject: [PATCH 33/54] fix: a failed set or map insertion leaves the tree as
 it was

---
 include/cest/map.hpp | 13 ++++++++++---
 include/cest/set.hpp | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index b1289b0..8891551 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -283,9 +283,16 @@ public:
     node *ret_node = nullptr; // node added; or the one that prevents insertion
     auto ins = [this,&added,&value,&ret_node](node *&n, node *p, auto &ins_rec) {
       if (!n) {
-        n = ret_node = m_node_alloc.allocate(1);
-        std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
-        m_begin = (!m_begin || m_comp(value.first,m_begin->x.first)) ? n : m_begin;
+        const bool first = !m_begin || m_comp(value.first,m_begin->x.first);
+        ret_node = m_node_alloc.allocate(1);
+        try {
+          std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
+        } catch (...) {
+          m_node_alloc.deallocate(ret_node,1);
+          throw;
+        }
+        n = ret_node;
+        m_begin = first ? n : m_begin;
         added = true;
         m_size++;
         return;
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index c1cf451..6552125 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -219,9 +219,16 @@ public:
     node *ret_node = nullptr; // node added; or the one that prevents insertion
     auto ins = [this,&added,&value,&ret_node](node *&n, node *p, auto &ins_rec) {
       if (!n) {
-        n = ret_node = m_node_alloc.allocate(1);
-        std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
-        m_begin = (!m_begin || m_comp(value,m_begin->x)) ? n : m_begin;
+        const bool first = !m_begin || m_comp(value,m_begin->x);
+        ret_node = m_node_alloc.allocate(1);
+        try {
+          std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
+        } catch (...) {
+          m_node_alloc.deallocate(ret_node,1);
+          throw;
+        }
+        n = ret_node;
+        m_begin = first ? n : m_begin;
         added = true;
         m_size++;
         return;
-- 
2.43.0


From 84cee0bbfc05f615055203529cf6b8d1f0b4bd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:39 +0000
Subject: [PATCH 34/54] fix: an empty shared_ptr can be copied and aliased

---
 include/cest/shared_ptr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 9b465ed..afcfb7b 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -81,11 +81,11 @@ public:
     : ptr_{ptr}, pctrl_{new ctrl_derived<Y,Deleter>{ptr,del}} {}
 
   constexpr shared_ptr_base(const shared_ptr_base& r) noexcept
-    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { ++pctrl_->count_; }
+    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
   template <class Y>
   constexpr shared_ptr_base(const shared_ptr<Y>& r, element_type* ptr) noexcept
-    : ptr_{ptr}, pctrl_{r.pctrl_} { ++pctrl_->count_; }
+    : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
   constexpr ~shared_ptr_base()
   {
-- 
2.43.0


From 5308629cc4ac3215673777614190199e56b634be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:39 +0000
Subject: [PATCH 35/54] fix: shared_ptr assignment shares ownership

---
 include/cest/shared_ptr.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index afcfb7b..49d3ed3 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -87,6 +87,14 @@ public:
   constexpr shared_ptr_base(const shared_ptr<Y>& r, element_type* ptr) noexcept
     : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
+  constexpr shared_ptr_base& operator=(const shared_ptr_base& r) noexcept
+  {
+    shared_ptr_base tmp(r);
+    std::swap(ptr_,   tmp.ptr_);
+    std::swap(pctrl_, tmp.pctrl_);
+    return *this;
+  }
+
   constexpr ~shared_ptr_base()
   {
     if (pctrl_ && !--pctrl_->count_)
-- 
2.43.0


From a0e394df2b635472d38dee9cafd8725a9115e6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:39 +0000
Subject: [PATCH 36/54] fix: shared_ptr deletes the pointer type it was created
 with

---
 include/cest/shared_ptr.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 49d3ed3..759056e 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -65,6 +65,11 @@ protected:
   template <typename U>
   struct def_del : default_delete<U> {};
 
+  // deletes the pointer type given, which may derive from T
+  template <typename Y>
+  using def_del_for =
+    def_del<std::conditional_t<std::is_array_v<Td>, Y[], Y>>;
+
 public:
   using element_type = std::remove_extent_t<T>;
   using weak_type = std::weak_ptr<T>;
@@ -74,7 +79,7 @@ public:
 
   template <class Y>
   explicit constexpr shared_ptr_base(Y* ptr)
-    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,def_del<Td>>{ptr,def_del<Td>{}}} {}
+    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,def_del_for<Y>>{ptr,def_del_for<Y>{}}} {}
 
   template <class Y, class Deleter>
   constexpr shared_ptr_base(Y* ptr, Deleter del)
-- 
2.43.0


From df9b27fe6d38bb36be1877c9fd91277db01c0bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:39 +0000
Subject: [PATCH 37/54] fix: shared_ptr disposes of the pointer when taking
 ownership fails

---
 include/cest/shared_ptr.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 759056e..215ab3d 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -70,6 +70,18 @@ protected:
   using def_del_for =
     def_del<std::conditional_t<std::is_array_v<Td>, Y[], Y>>;
 
+  // disposes of ptr if it cannot be owned
+  template <class Y, class Deleter>
+  static constexpr ctrl* make_ctrl(Y* ptr, Deleter& del)
+  {
+    try {
+      return new ctrl_derived<Y,Deleter>{ptr,del};
+    } catch (...) {
+      del(ptr);
+      throw;
+    }
+  }
+
 public:
   using element_type = std::remove_extent_t<T>;
   using weak_type = std::weak_ptr<T>;
@@ -79,11 +91,11 @@ public:
 
   template <class Y>
   explicit constexpr shared_ptr_base(Y* ptr)
-    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,def_del_for<Y>>{ptr,def_del_for<Y>{}}} {}
+    : shared_ptr_base(ptr, def_del_for<Y>{}) {}
 
   template <class Y, class Deleter>
   constexpr shared_ptr_base(Y* ptr, Deleter del)
-    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,Deleter>{ptr,del}} {}
+    : ptr_{ptr}, pctrl_{make_ctrl(ptr,del)} {}
 
   constexpr shared_ptr_base(const shared_ptr_base& r) noexcept
     : ptr_{r.ptr_}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
-- 
2.43.0


From 4c82f7a9f1c9e43e22562ce45c5d1832d21b2c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:07 +0000
Subject: [PATCH 38/54] fix: copying a function object copies its target

---
 include/cest/functional.hpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/include/cest/functional.hpp b/include/cest/functional.hpp
index a614699..f1ead8c 100644
--- a/include/cest/functional.hpp
+++ b/include/cest/functional.hpp
@@ -15,6 +15,7 @@ class virt_impl_f
 {
 public:
   constexpr virtual R operator()(Args... args) = 0;
+  constexpr virtual virt_impl_f* clone() const = 0;
   constexpr virtual ~virt_impl_f() = default;
 };
 
@@ -23,6 +24,9 @@ class impl_f : public virt_impl_f<R , Args...>
 {
 public:
   constexpr impl_f(F&& f) : f_(f) {}
+  constexpr impl_f(const impl_f&) = default;
+
+  constexpr virtual impl_f* clone() const override { return new impl_f(*this); }
 
   constexpr virtual R operator()(Args... args) override {
     return f_(std::forward<Args>(args)...);
@@ -36,6 +40,9 @@ class impl_f<F, void, Args...> : public virt_impl_f<void, Args...>
 {
 public:
   constexpr impl_f(F&& f) : f_(f) {}
+  constexpr impl_f(const impl_f&) = default;
+
+  constexpr virtual impl_f* clone() const override { return new impl_f(*this); }
 
   constexpr virtual void operator()(Args... args) override {
     f_(std::forward<Args>(args)...);
@@ -53,11 +60,22 @@ class function<R (Args...)>
   cest::unique_ptr<virt_impl_f<R, Args...>> f_;
 
 public:
+  constexpr function(const function& other)
+    : f_(other.f_ ? other.f_->clone() : nullptr) {}
+
+  constexpr function(function&&) = default;
+
+  constexpr function& operator=(function other) {
+    f_ = std::move(other.f_);
+    return *this;
+  }
+
   constexpr R operator()(Args... args) {
     return f_->operator()(std::forward<Args>(args)...);
   }
 
   template<typename F>
+    requires (!std::is_same_v<std::decay_t<F>, function>)
   constexpr function(F&& f) :
     f_(cest::make_unique<impl_f<std::decay_t<F>,
                          R, Args...>>(std::move(f))){}
@@ -69,11 +87,22 @@ class function<void (Args...)>
   cest::unique_ptr<virt_impl_f<void, Args...>> f_;
 
 public:
+  constexpr function(const function& other)
+    : f_(other.f_ ? other.f_->clone() : nullptr) {}
+
+  constexpr function(function&&) = default;
+
+  constexpr function& operator=(function other) {
+    f_ = std::move(other.f_);
+    return *this;
+  }
+
   constexpr void operator()(Args... args) {
     return f_->operator()(std::forward<Args>(args)...);
   }
 
   template<typename F>
+    requires (!std::is_same_v<std::decay_t<F>, function>)
   constexpr function(F&& f) :
     f_(cest::make_unique<impl_f<std::decay_t<F>,
                          void, Args...>>(std::move(f))){}
-- 
2.43.0


From 8a96f5f52f681412b037ebdad9ce5ca813eb6fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:17 +0000
Subject: [PATCH 39/54] fix: fprintf releases its buffer when the stream throws

---
 include/cest/cstdio.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cest/cstdio.hpp b/include/cest/cstdio.hpp
index 7ba7a78..aac5c4a 100644
--- a/include/cest/cstdio.hpp
+++ b/include/cest/cstdio.hpp
@@ -58,7 +58,12 @@ constexpr int fprintf(ostream* stream, const char* format, Ts&&... xs)
     int nbytes = std::snprintf(nullptr, 0, format, std::forward<Ts>(xs)...);
     char *psz = new char[nbytes+1];
     std::snprintf(psz, nbytes+1, format, std::forward<Ts>(xs)...);
-    (*stream) << psz;
+    try {
+      (*stream) << psz;
+    } catch (...) {
+      delete [] psz;
+      throw;
+    }
     delete [] psz;
     return nbytes;
   }
-- 
2.43.0


From 8431fe82ba326b64170dd9a99fec8fee1820a1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:17 +0000
Subject: [PATCH 40/54] fix: fprintf reports a formatting error

---
 include/cest/cstdio.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cest/cstdio.hpp b/include/cest/cstdio.hpp
index aac5c4a..4482a3a 100644
--- a/include/cest/cstdio.hpp
+++ b/include/cest/cstdio.hpp
@@ -56,6 +56,8 @@ constexpr int fprintf(ostream* stream, const char* format, Ts&&... xs)
   if (!std::is_constant_evaluated())
   {
     int nbytes = std::snprintf(nullptr, 0, format, std::forward<Ts>(xs)...);
+    if (nbytes < 0)
+      return nbytes;
     char *psz = new char[nbytes+1];
     std::snprintf(psz, nbytes+1, format, std::forward<Ts>(xs)...);
     try {
-- 
2.43.0


From 446f9cccfcbb4544ffc867a1c75e6e087c337202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:17 +0000
Subject: [PATCH 41/54] fix: fprintf output keeps the characters after a zero

---
 include/cest/cstdio.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cest/cstdio.hpp b/include/cest/cstdio.hpp
index 4482a3a..3152698 100644
--- a/include/cest/cstdio.hpp
+++ b/include/cest/cstdio.hpp
@@ -3,6 +3,7 @@
 
 #include <cstdio>
 #include <cassert>
+#include <string_view>
 #include "cest/iostream.hpp"
 #include "cest/string.hpp"
 
@@ -61,7 +62,7 @@ constexpr int fprintf(ostream* stream, const char* format, Ts&&... xs)
     char *psz = new char[nbytes+1];
     std::snprintf(psz, nbytes+1, format, std::forward<Ts>(xs)...);
     try {
-      (*stream) << psz;
+      impl::runtime_ostream(*stream, std::string_view(psz, nbytes));
     } catch (...) {
       delete [] psz;
       throw;
-- 
2.43.0


From 7fd3d3d3b855bed3698370d8af3346357e562603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:55 +0000
Subject: [PATCH 42/54] fix: printf and fprintf interpret a format without
 arguments

---
 include/cest/cstdio.hpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/include/cest/cstdio.hpp b/include/cest/cstdio.hpp
index 3152698..aaffa53 100644
--- a/include/cest/cstdio.hpp
+++ b/include/cest/cstdio.hpp
@@ -23,7 +23,7 @@ constexpr int printf(const char* format)
 {
   if (!std::is_constant_evaluated())
   {
-    return std::printf("%s", format);
+    return std::printf(format, ""); // the argument is unused
   }
 
   return 0;
@@ -40,16 +40,6 @@ constexpr int printf(const char* format, Ts&&... xs)
   return 0; // positive; not an error; 0 characters output (constexpr)
 }
 
-constexpr int fprintf(ostream* stream, const char* format)
-{
-  if (!std::is_constant_evaluated())
-  {
-    (*stream) << format;
-  }
-
-  return 0;
-}
-
 // FILE* for param 1 would itroduce the issues described above. 
 template <typename... Ts>
 constexpr int fprintf(ostream* stream, const char* format, Ts&&... xs)
@@ -74,6 +64,11 @@ constexpr int fprintf(ostream* stream, const char* format, Ts&&... xs)
   return 0;
 }
 
+constexpr int fprintf(ostream* stream, const char* format)
+{
+  return fprintf(stream, format, ""); // the argument is unused
+}
+
 constexpr FILE* fmemopen(char* buf, size_t size, const char* /*mode*/)
 {
   return new stringstream(string(buf,size));
-- 
2.43.0


From a86d02290a621020dbc21b05d3fc65e4bb0c2e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:55 +0000
Subject: [PATCH 43/54] fix: flush() flushes the process stream

---
 include/cest/ostream.hpp         |  1 +
 include/cest/runtime_ostream.hpp | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index 3a9488c..ef86d82 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -152,6 +152,7 @@ endl(basic_ostream<CharT, Traits> &os)
       ios_base::iostate __err = ios_base::goodbit;
       __try
   {
+    impl::runtime_flush(*this);
     if (this->rdbuf() && this->rdbuf()->pubsync() == -1)
       __err |= ios_base::badbit;
   }
diff --git a/include/cest/runtime_ostream.hpp b/include/cest/runtime_ostream.hpp
index 24ea8ea..4ec4005 100644
--- a/include/cest/runtime_ostream.hpp
+++ b/include/cest/runtime_ostream.hpp
@@ -34,6 +34,17 @@ constexpr void runtime_ostream(
   }
 }
 
+template <class CharT, class Traits>
+constexpr void runtime_flush(basic_ostream<CharT,Traits>& os)
+{
+  if (!std::is_constant_evaluated())
+  {
+    if      (&cest::cout == &os) std::cout.flush();
+    else if (&cest::cerr == &os) std::cerr.flush();
+    else if (&cest::clog == &os) std::clog.flush();
+  }
+}
+
 } // namespace impl
 
 } // namespace cest
-- 
2.43.0


From 52e2d5760f93574717f32e88f828f08b940732c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:55 +0000
Subject: [PATCH 44/54] fix: hex, oct and dec reach the process stream

---
 include/cest/ostream.hpp         |  1 +
 include/cest/runtime_ostream.hpp | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index ef86d82..af6cf64 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -55,6 +55,7 @@ public:
   constexpr __ostream_type&
   operator<<(ios_base&       (*__pf)(ios_base&))       {
     __pf(*this);
+    impl::runtime_base(*this, __pf);
     return *this;
   }
 
diff --git a/include/cest/runtime_ostream.hpp b/include/cest/runtime_ostream.hpp
index 4ec4005..061149e 100644
--- a/include/cest/runtime_ostream.hpp
+++ b/include/cest/runtime_ostream.hpp
@@ -45,6 +45,19 @@ constexpr void runtime_flush(basic_ostream<CharT,Traits>& os)
   }
 }
 
+// hex, oct and dec
+template <class CharT, class Traits>
+constexpr void
+runtime_base(basic_ostream<CharT,Traits>& os, ios_base& (*fp)(ios_base&))
+{
+  if (!std::is_constant_evaluated())
+  {
+    if      (fp == &cest::hex) runtime_ostream(os, std::hex);
+    else if (fp == &cest::oct) runtime_ostream(os, std::oct);
+    else if (fp == &cest::dec) runtime_ostream(os, std::dec);
+  }
+}
+
 } // namespace impl
 
 } // namespace cest
-- 
2.43.0


From fa30e47baec1dd2deea482716143c0b04c41475c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:55 +0000
Subject: [PATCH 45/54] fix: signed and unsigned char are written as characters

---
 include/cest/ostream.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index af6cf64..07ec02d 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -95,6 +95,22 @@ operator<<(basic_ostream<CharT,Traits>& os, CharT ch)
   return os;
 }
 
+template <class Traits>
+constexpr basic_ostream<char,Traits>&
+operator<<(basic_ostream<char,Traits>& os, signed char ch)
+{
+  impl::runtime_ostream(os, ch);
+  return os;
+}
+
+template <class Traits>
+constexpr basic_ostream<char,Traits>&
+operator<<(basic_ostream<char,Traits>& os, unsigned char ch)
+{
+  impl::runtime_ostream(os, ch);
+  return os;
+}
+
 template <class CharT, class Traits>
 constexpr basic_ostream<CharT,Traits>&
 operator<<(basic_ostream<CharT,Traits>& os, const CharT* s)
-- 
2.43.0


From b4509285ffbabdc2c1569e09ca7cc928cedc3a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:13 +0000
Subject: [PATCH 46/54] fix: an error of the process stream during flush()
 reaches the caller

---
 include/cest/ostream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index 07ec02d..4af27e0 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -166,10 +166,10 @@ endl(basic_ostream<CharT, Traits> &os)
       // _GLIBCXX_RESOLVE_LIB_DEFECTS
       // DR 60. What is a formatted input function?
       // basic_ostream::flush() is *not* an unformatted output function.
+      impl::runtime_flush(*this);
       ios_base::iostate __err = ios_base::goodbit;
       __try
   {
-    impl::runtime_flush(*this);
     if (this->rdbuf() && this->rdbuf()->pubsync() == -1)
       __err |= ios_base::badbit;
   }
-- 
2.43.0


From 2809e87e68532bfb59483b6e2f5407b195074203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:46 +0000
Subject: [PATCH 47/54] fix: flush() and base changes are accepted on wide
 streams

---
 include/cest/runtime_ostream.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cest/runtime_ostream.hpp b/include/cest/runtime_ostream.hpp
index 061149e..4825027 100644
--- a/include/cest/runtime_ostream.hpp
+++ b/include/cest/runtime_ostream.hpp
@@ -34,8 +34,11 @@ constexpr void runtime_ostream(
   }
 }
 
+// no other stream has a process stream behind it
 template <class CharT, class Traits>
-constexpr void runtime_flush(basic_ostream<CharT,Traits>& os)
+constexpr void runtime_flush(basic_ostream<CharT,Traits>&) {}
+
+constexpr void runtime_flush(basic_ostream<char>& os)
 {
   if (!std::is_constant_evaluated())
   {
@@ -48,7 +51,9 @@ constexpr void runtime_flush(basic_ostream<CharT,Traits>& os)
 // hex, oct and dec
 template <class CharT, class Traits>
 constexpr void
-runtime_base(basic_ostream<CharT,Traits>& os, ios_base& (*fp)(ios_base&))
+runtime_base(basic_ostream<CharT,Traits>&, ios_base& (*)(ios_base&)) {}
+
+constexpr void runtime_base(basic_ostream<char>& os, ios_base& (*fp)(ios_base&))
 {
   if (!std::is_constant_evaluated())
   {
-- 
2.43.0


From 08a410485429f51659e98684afdee890121a595a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 48/54] fix: comparison of wide strings for equality is usable
 in constant expressions

---
 include/cest/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index a509088..61109fd 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -311,7 +311,7 @@ private:
 };
 
 template<typename _CharT, typename _Traits, typename _Alloc>
-  inline bool
+  inline constexpr bool
   operator==(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
              const basic_string<_CharT, _Traits, _Alloc>& __rhs)
   noexcept
-- 
2.43.0


From c60160c8db8adce1a2496575990873953124e0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 49/54] fix: assignment of a string to itself is usable in
 constant expressions

---
 include/cest/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 61109fd..76dd317 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -284,7 +284,7 @@ private:
       m_alloc.deallocate(m_p, m_capacity+1);
       m_p = p;
       m_capacity = new_cap;
-    } else {
+    } else if (s != m_p) {
       traits_type::move(m_p, s, count);
     }
 
-- 
2.43.0


From 558e858efc9e63546ae8fbbb7d451db0845c1e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:30 +0000
Subject: [PATCH 50/54] fix: flush() links without iostream.hpp, so string
 streams work alone again

---
 include/cest/iostream.hpp        |  6 +++---
 include/cest/ostream.hpp         | 12 +++++++++++-
 include/cest/runtime_ostream.hpp | 14 --------------
 3 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/include/cest/iostream.hpp b/include/cest/iostream.hpp
index c7ffc4f..e3dc3a9 100644
--- a/include/cest/iostream.hpp
+++ b/include/cest/iostream.hpp
@@ -14,9 +14,9 @@ namespace impl {
   basic_stringbuf cin(string("cin"));
 }
 
-ostream cout(&impl::cout);
-ostream cerr(&impl::cerr);
-ostream clog(&impl::clog);
+ostream cout(&impl::cout, &std::cout);
+ostream cerr(&impl::cerr, &std::cerr);
+ostream clog(&impl::clog, &std::clog);
 istream cin(&impl::cin);
 
 using iostream  = basic_iostream<char>;
diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index 4af27e0..4c1ba93 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -33,6 +33,12 @@ public:
   basic_ostream(__streambuf_type* __sb)
   { this->init(__sb); }
 
+  // __os is the process stream which the output is sent to
+  constexpr
+  basic_ostream(__streambuf_type* __sb, std::basic_ostream<_CharT, _Traits>* __os)
+  : _M_process(__os)
+  { this->init(__sb); }
+
   virtual constexpr
   ~basic_ostream() { }
 
@@ -82,6 +88,9 @@ public:
   template<typename _ValueT>
   constexpr __ostream_type&
   _M_insert(_ValueT __v);
+
+  // not found via cest::cout etc. so flush() can be used without iostream.hpp
+  std::basic_ostream<_CharT, _Traits>* _M_process = nullptr;
 };
 
 using  ostream = basic_ostream<char>;
@@ -166,7 +175,8 @@ endl(basic_ostream<CharT, Traits> &os)
       // _GLIBCXX_RESOLVE_LIB_DEFECTS
       // DR 60. What is a formatted input function?
       // basic_ostream::flush() is *not* an unformatted output function.
-      impl::runtime_flush(*this);
+      if (!std::is_constant_evaluated() && _M_process)
+        _M_process->flush();
       ios_base::iostate __err = ios_base::goodbit;
       __try
   {
diff --git a/include/cest/runtime_ostream.hpp b/include/cest/runtime_ostream.hpp
index 4825027..3092b73 100644
--- a/include/cest/runtime_ostream.hpp
+++ b/include/cest/runtime_ostream.hpp
@@ -34,20 +34,6 @@ constexpr void runtime_ostream(
   }
 }
 
-// no other stream has a process stream behind it
-template <class CharT, class Traits>
-constexpr void runtime_flush(basic_ostream<CharT,Traits>&) {}
-
-constexpr void runtime_flush(basic_ostream<char>& os)
-{
-  if (!std::is_constant_evaluated())
-  {
-    if      (&cest::cout == &os) std::cout.flush();
-    else if (&cest::cerr == &os) std::cerr.flush();
-    else if (&cest::clog == &os) std::clog.flush();
-  }
-}
-
 // hex, oct and dec
 template <class CharT, class Traits>
 constexpr void
-- 
2.43.0


From b4d08943591895d100ed643d9a3943c0829053bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:55 +0000
Subject: [PATCH 51/54] fix: forward_list assignment keeps using the list's own
 allocator

---
 include/cest/forward_list.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index e5efcf2..9e4b358 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -97,7 +97,12 @@ struct forward_list {
   };
 
   constexpr forward_list() = default;
-  constexpr forward_list(const forward_list& x) : forward_list()
+  explicit constexpr forward_list(const Allocator& alloc)
+    : m_node_alloc(alloc) {}
+  constexpr forward_list(const forward_list& x)
+    : forward_list(x, Allocator()) {}
+  constexpr forward_list(const forward_list& x, const Allocator& alloc)
+    : forward_list(alloc)
   {
     const node_base* from = &x.m_front;
           node_base*   to = &this->m_front;
@@ -111,7 +116,7 @@ struct forward_list {
 
   constexpr forward_list& operator=(const forward_list& x)
   {
-    forward_list tmp(x);
+    forward_list tmp(x, get_allocator());
     this->swap(tmp);
     return *this;
   }
-- 
2.43.0


From 58f659f075547c32819ea971a84e44e75ec52cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:55 +0000
Subject: [PATCH 52/54] fix: deque uses the allocator given to its constructor

---
 include/cest/deque.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index d3ab73e..214daa6 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -154,7 +154,9 @@ public:
     value_type* const* m_ppchunk = nullptr; // address of the vector element
   };
 
-  constexpr deque()
+  constexpr deque() : deque(Allocator()) {}
+
+  explicit constexpr deque(const Allocator& alloc) : m_alloc(alloc)
   {
     m_front = CHUNK_SIZE / 2;
     m_back  = CHUNK_SIZE / 2 - 1;
@@ -170,7 +172,7 @@ public:
   }
 
   constexpr deque(std::initializer_list<T> init,
-                  const Allocator& alloc = Allocator()) : deque()
+                  const Allocator& alloc = Allocator()) : deque(alloc)
   {
     for (const auto &x : init) { push_back(x); }
   }
-- 
2.43.0


From 54efdc49bec303b1f68f777f124e617fbcd5fb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:21 +0000
Subject: [PATCH 53/54] fix: deque reuses the chunks that popping has left
 behind

---
 include/cest/deque.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 214daa6..efed7fb 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -336,10 +336,14 @@ private:
 
     if (m_front_chunk == 0)
     {
-      add_chunk();
-      std::rotate(m_chunks.rbegin(), m_chunks.rbegin() + 1, m_chunks.rend());
-      ++m_front_chunk;
-      ++m_back_chunk;
+      // the chunks behind the back, if any, serve at the front
+      if (end_chunk() == m_chunks.size() - 1)
+        add_chunk();
+      const size_type num_spare = m_chunks.size() - 1 - end_chunk();
+      std::rotate(m_chunks.rbegin(), m_chunks.rbegin() + num_spare,
+                  m_chunks.rend());
+      m_front_chunk += num_spare;
+      m_back_chunk  += num_spare;
     }
 
     return &m_chunks[m_front_chunk - 1][CHUNK_SIZE - 1];
@@ -350,7 +354,18 @@ private:
   {
     // the slot after the new element must exist too, as end() designates it
     if (end_slot() == CHUNK_SIZE - 1 && end_chunk() == m_chunks.size() - 1)
-      add_chunk();
+    {
+      if (m_front_chunk == 0)
+        add_chunk();
+      else
+      {
+        // the chunks before the front serve at the back
+        std::rotate(m_chunks.begin(), m_chunks.begin() + m_front_chunk,
+                    m_chunks.end());
+        m_back_chunk -= m_front_chunk;
+        m_front_chunk = 0;
+      }
+    }
 
     return &m_chunks[end_chunk()][end_slot()];
   }
-- 
2.43.0


From 14e546c0fc17aca5ee082d4fa2e854b6bd4806d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:09 +0000
Subject: [PATCH 54/54] fix: owners of one object may be copied and destroyed
 by different threads

---
 include/cest/shared_ptr.hpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 215ab3d..68174dd 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -4,6 +4,7 @@
 // TODO: Sharing subobjects
 // https://www.justsoftwaresolutions.co.uk/cplusplus/shared-ptr-secret-constructor.html
 
+#include <atomic>      // std::atomic_ref
 #include <type_traits>
 
 #include "cest/iostream.hpp"
@@ -49,6 +50,31 @@ protected:
     virtual constexpr void destroy() = 0;
     virtual constexpr ~ctrl() {}
 
+    // owners may be copied and destroyed by different threads
+    constexpr void acquire() noexcept
+    {
+      if (std::is_constant_evaluated())
+        ++count_;
+      else
+        std::atomic_ref(count_).fetch_add(1, std::memory_order_relaxed);
+    }
+
+    constexpr bool release() noexcept // true if this was the last owner
+    {
+      if (std::is_constant_evaluated())
+        return !--count_;
+      else
+        return 1 == std::atomic_ref(count_).fetch_sub(1);
+    }
+
+    constexpr long use_count() noexcept
+    {
+      if (std::is_constant_evaluated())
+        return count_;
+      else
+        return std::atomic_ref(count_).load(std::memory_order_relaxed);
+    }
+
     long count_;
   };
 
@@ -98,11 +124,11 @@ public:
     : ptr_{ptr}, pctrl_{make_ctrl(ptr,del)} {}
 
   constexpr shared_ptr_base(const shared_ptr_base& r) noexcept
-    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
+    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { if (pctrl_) pctrl_->acquire(); }
 
   template <class Y>
   constexpr shared_ptr_base(const shared_ptr<Y>& r, element_type* ptr) noexcept
-    : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
+    : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) pctrl_->acquire(); }
 
   constexpr shared_ptr_base& operator=(const shared_ptr_base& r) noexcept
   {
@@ -114,7 +140,7 @@ public:
 
   constexpr ~shared_ptr_base()
   {
-    if (pctrl_ && !--pctrl_->count_)
+    if (pctrl_ && pctrl_->release())
     {
       pctrl_->destroy();
       delete pctrl_;
@@ -122,7 +148,7 @@ public:
   }
 
   constexpr long use_count() const noexcept {
-    return pctrl_ ? pctrl_->count_ : 0;
+    return pctrl_ ? pctrl_->use_count() : 0;
   }
 
   constexpr element_type* get() const noexcept { return ptr_; }
-- 
2.43.0

