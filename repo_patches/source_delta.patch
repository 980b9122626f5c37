From 94f7bdbff6d0f0aee3e5831d8c0818b592cf4981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 01/19] libpopcnt: simulation seams for cpuid and xgetbv,
 guarded by BITLIB_SIM

---
 include/bitlib/bit-algorithms/libpopcnt.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-algorithms/libpopcnt.h b/include/bitlib/bit-algorithms/libpopcnt.h
index ffcd976..f67736d 100644
--- a/include/bitlib/bit-algorithms/libpopcnt.h
+++ b/include/bitlib/bit-algorithms/libpopcnt.h
@@ -246,9 +246,17 @@ static inline uint64_t popcnt64(uint64_t x)
 #define XSTATE_YMM (1 << 2)
 #define XSTATE_ZMM (7 << 5)
 
+#if defined(BITLIB_SIM)
+/* Simulation seams: with BITLIB_SIM defined, the test environment answers. */
+extern "C" void bitlib_sim_cpuid(int eax, int ecx, int* abcd);
+extern "C" int bitlib_sim_xcr0(void);
+#endif
+
 static inline void run_cpuid(int eax, int ecx, int* abcd)
 {
-#if defined(_MSC_VER)
+#if defined(BITLIB_SIM)
+  bitlib_sim_cpuid(eax, ecx, abcd);
+#elif defined(_MSC_VER)
   __cpuidex(abcd, eax, ecx);
 #else
   int ebx = 0;
@@ -286,7 +294,9 @@ static inline int get_xcr0()
 {
   int xcr0;
 
-#if defined(_MSC_VER)
+#if defined(BITLIB_SIM)
+  xcr0 = bitlib_sim_xcr0();
+#elif defined(_MSC_VER)
   xcr0 = (int) _xgetbv(0);
 #else
   __asm__ ("xgetbv" : "=a" (xcr0) : "c" (0) : "%edx" );
-- 
2.43.0


From ccccec5544952e6eb60833b337727ba8f854f387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 02/19] fix: shift_left/shift_right over bit ranges on raw word
 pointers

word_shift_left and word_shift_right named RandomAccessIt::difference_type,
which raw pointers do not have, so shifting (and growing/erasing) ranges
whose word iterator is a pointer did not compile before C++20.
---
 include/bitlib/bit-algorithms/bit_algorithm_details.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
index 984c499..c6e6fdf 100644
--- a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
+++ b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
@@ -279,11 +279,11 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
 template <class RandomAccessIt>
 RandomAccessIt word_shift_left(RandomAccessIt first,
                           RandomAccessIt last,
-                          typename RandomAccessIt::difference_type n
+                          typename std::iterator_traits<RandomAccessIt>::difference_type n
 )
 {
     if (n <= 0) return last;
-    if (n >= distance(first, last)) return first;
+    if (n >= std::distance(first, last)) return first;
     RandomAccessIt mid = first + n;
     auto ret = std::move(mid, last, first);
     return ret;
@@ -296,10 +296,10 @@ RandomAccessIt word_shift_left(RandomAccessIt first,
 template <class RandomAccessIt>
 RandomAccessIt word_shift_right(RandomAccessIt first,
                           RandomAccessIt last,
-                          typename RandomAccessIt::difference_type n
+                          typename std::iterator_traits<RandomAccessIt>::difference_type n
 )
 {
-    auto d = distance(first, last);
+    auto d = std::distance(first, last);
     if (n <= 0) return first;
     if (n >= d) return last;
     std::move_backward(first, last-n, last);
-- 
2.43.0


From 31bd821705a6c3449a1fc5945f5d4e8eb393b4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 03/19] fix: rotate about the end of the range

With n_first == last the algorithm lost bits, read behind the range and
returned a wrong position; std::rotate returns first and changes nothing.
---
 include/bitlib/bit-algorithms/rotate.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bitlib/bit-algorithms/rotate.hpp b/include/bitlib/bit-algorithms/rotate.hpp
index f9509ba..3ee1ac7 100644
--- a/include/bitlib/bit-algorithms/rotate.hpp
+++ b/include/bitlib/bit-algorithms/rotate.hpp
@@ -193,6 +193,7 @@ bit_iterator<ForwardIt> rotate(
     _assert_range_viability(first, last);
     //if (first == n_first) return n_first;
     if (first == n_first) return last;
+    if (n_first == last) return first;
 
     // Types and constants
     using word_type = typename bit_iterator<ForwardIt>::word_type;
-- 
2.43.0


From 4a32f6e44a58287886dbc73526db75523709a835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:09 +0000
Subject: [PATCH 04/19] fix: count over an empty range reads no word

An empty range may lie at the end of the storage; its word must not be
dereferenced.
---
 include/bitlib/bit-algorithms/count.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bitlib/bit-algorithms/count.hpp b/include/bitlib/bit-algorithms/count.hpp
index 1a804b1..8bbf411 100644
--- a/include/bitlib/bit-algorithms/count.hpp
+++ b/include/bitlib/bit-algorithms/count.hpp
@@ -40,6 +40,7 @@ count(
 ) {
     // Assertions
     _assert_range_viability(first, last);
+    if (first == last) return 0;
 
     // Types and constants
     using word_type = typename bit_iterator<RandomAccessIt>::word_type;
-- 
2.43.0


From 202d752f58d8eadaa7f83325e941bf55ab8cf8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 05/19] fix: reverse over an empty range touches no word

reverse(first, first) read, and at an unaligned position rewrote, the word
at first, which may lie behind the storage or belong to another thread.
---
 include/bitlib/bit-algorithms/reverse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bitlib/bit-algorithms/reverse.hpp b/include/bitlib/bit-algorithms/reverse.hpp
index 37dacb7..6914fa5 100644
--- a/include/bitlib/bit-algorithms/reverse.hpp
+++ b/include/bitlib/bit-algorithms/reverse.hpp
@@ -32,6 +32,7 @@ constexpr void reverse(
 {
     // Assertions
     _assert_range_viability(first, last);
+    if (first == last) return;
 
     // Types and constants
     using word_type = typename bit_iterator<RandomAccessIt>::word_type;
-- 
2.43.0


From 95d3965b957ff2b27c73069701200bed62896c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 06/19] fix: find over an empty range reads no word

---
 include/bitlib/bit-algorithms/find.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bitlib/bit-algorithms/find.hpp b/include/bitlib/bit-algorithms/find.hpp
index b35583c..1c2c007 100644
--- a/include/bitlib/bit-algorithms/find.hpp
+++ b/include/bitlib/bit-algorithms/find.hpp
@@ -35,6 +35,7 @@ constexpr bit_iterator<RandomAccessIt> find(
         bit_iterator<RandomAccessIt> first,
         bit_iterator<RandomAccessIt> last, bit::bit_value bv
 ) {
+    if (first == last) return last;
 
     using word_type = typename bit_iterator<RandomAccessIt>::word_type;
     using size_type = typename bit_iterator<RandomAccessIt>::size_type;
-- 
2.43.0


From c45df9d2b68d59be5b78d551a43fd229c5a5c578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 07/19] fix: bits added by resize have the requested value

resize(count, value) filled the empty range behind the new end, and
resize(count) exposed the bits that earlier removals had left in the last
word.
---
 include/bitlib/bit-containers/bit_vector.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index f971c49..148f70d 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -610,8 +610,7 @@ constexpr void bit_vector<WordType, Allocator>::pop_back() {
 
 template<class WordType, class Allocator>
 constexpr void bit_vector<WordType, Allocator>::resize(size_type count) {
-    word_vector.resize(word_count(count));
-    length_ = count;
+    resize(count, bit0);
     return;
 }
 
@@ -621,7 +620,7 @@ constexpr void bit_vector<WordType, Allocator>::resize(size_type count, const va
     word_vector.resize(word_count(count));
     length_ = count;
     if (length_ > old_length) {
-        fill(begin() + length_, end(), value);
+        fill(begin() + old_length, end(), value);
     }
     return;
 }
-- 
2.43.0


From d3d607281b74ff9e24be9464ded2420445aa6fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 08/19] fix: move construction moves

The move constructors took const bit_vector&&, so they copied, could run
out of memory inside a noexcept function and made std::swap copy.
---
 include/bitlib/bit-containers/bit_vector.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 148f70d..10ba1e6 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -112,8 +112,8 @@ class bit_vector {
                 const Allocator& alloc=Allocator());
         constexpr bit_vector(const bit_vector<WordType, Allocator>& other) = default;
         constexpr bit_vector(const bit_vector<WordType, Allocator>& other, const Allocator& alloc);
-        constexpr bit_vector(const bit_vector<WordType, Allocator>&& other) noexcept;
-        constexpr bit_vector(const bit_vector<WordType, Allocator>&& other, const Allocator& alloc);
+        constexpr bit_vector(bit_vector<WordType, Allocator>&& other) noexcept;
+        constexpr bit_vector(bit_vector<WordType, Allocator>&& other, const Allocator& alloc);
         constexpr bit_vector(std::initializer_list<bit_value> init, const Allocator& alloc=Allocator());
         constexpr bit_vector(std::initializer_list<bool> init, const Allocator& alloc=Allocator());
         constexpr bit_vector(std::initializer_list<WordType> init, const Allocator& alloc=Allocator());
@@ -242,12 +242,16 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
 }
 
 template<class WordType, class Allocator>
-constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>&& other) noexcept
-    : word_vector(std::move(other.word_vector)), length_(other.length_) {}
+constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Allocator>&& other) noexcept
+    : word_vector(std::move(other.word_vector)), length_(other.length_) {
+    other.length_ = 0;
+}
 
 template<class WordType, class Allocator>
-constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>&& other, const Allocator& alloc)
-    : word_vector(std::move(other.word_vector), alloc), length_(other.length_) {}
+constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Allocator>&& other, const Allocator& alloc)
+    : word_vector(std::move(other.word_vector), alloc), length_(other.length_) {
+    other.length_ = 0;
+}
 
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(std::initializer_list<bit_value> init, const Allocator& alloc)
-- 
2.43.0


From 55cf86426bb29de2629b86fdf7895fc06d78bfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 09/19] fix: bit counts above 2^32 are not truncated

word_count took an unsigned int and wrapped around near its maximum, so
oversized requests "succeeded" with next to no storage.
---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 10ba1e6..9816d61 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -41,8 +41,8 @@ class bit_vector {
 
         // TODO are privates always inlined?
         // @brief Get the number of words needed to represet num_bits bits
-        constexpr uint64_t word_count(unsigned int num_bits) {
-            return ((num_bits + digits - 1) / digits);
+        constexpr size_t word_count(size_t num_bits) {
+            return num_bits / digits + (num_bits % digits != 0);
         }
 
         // Iterator pair constructor specializations
-- 
2.43.0


From 913ba261ede5752644b14ed7b78c9d1a27a69911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 10/19] fix: insert computes the storage it needs exactly

The number of available bits was kept in a float, which cannot represent
it above 2^24, and the new length could wrap around.
---
 include/bitlib/bit-containers/bit_vector.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 9816d61..110218c 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -15,6 +15,7 @@
 // C++ standard library
 #include <vector>
 #include <cmath>
+#include <stdexcept>
 #include <string>
 #include <iostream>
 #include <algorithm>
@@ -533,7 +534,10 @@ bit_vector<WordType, Allocator>::insert(
     if (count == 0) {
         return begin() + d;
     }
-    const float bits_available = word_vector.size() * digits;
+    if (count > max_size() - length_) {
+        throw std::length_error("bit_vector::insert");
+    }
+    const size_type bits_available = word_vector.size() * digits;
     const bool need_to_add = length_ + count > bits_available;
     if (need_to_add) {
         const auto words_to_add = word_count(length_ + count - bits_available);
@@ -556,7 +560,10 @@ bit_vector<WordType, Allocator>::insert(
     if (count == 0) {
         return begin() + d;
     }
-    const float bits_available = word_vector.size()*digits;
+    if (count > max_size() - length_) {
+        throw std::length_error("bit_vector::insert");
+    }
+    const size_type bits_available = word_vector.size() * digits;
     const auto need_to_add = length_ + count > bits_available;
     if (need_to_add) {
         const auto words_to_add = word_count(length_ + count - bits_available);
-- 
2.43.0


From 3608b5c2654541b1011a6e8dc3f6087458a8d3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 11/19] libpopcnt: simulation seam for use of the popcnt
 instruction, guarded by BITLIB_SIM

---
 include/bitlib/bit-algorithms/libpopcnt.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/bitlib/bit-algorithms/libpopcnt.h b/include/bitlib/bit-algorithms/libpopcnt.h
index f67736d..d20d913 100644
--- a/include/bitlib/bit-algorithms/libpopcnt.h
+++ b/include/bitlib/bit-algorithms/libpopcnt.h
@@ -166,8 +166,16 @@ static inline uint64_t popcount64(uint64_t x)
 #if defined(HAVE_ASM_POPCNT) && \
     defined(__x86_64__)
 
+#if defined(BITLIB_SIM)
+/* Simulation seam: told before the popcnt instruction is used. */
+extern "C" void bitlib_sim_popcnt_used(void);
+#endif
+
 static inline uint64_t popcnt64(uint64_t x)
 {
+#if defined(BITLIB_SIM)
+  bitlib_sim_popcnt_used();
+#endif
   __asm__ ("popcnt %1, %0" : "=r" (x) : "0" (x));
   return x;
 }
-- 
2.43.0


From dbf8c3ffae3d57dc70fc909b129ab25fbc5cca11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:00 +0000
Subject: [PATCH 12/19] fix: element access and iteration of const bit vectors
 compiles

const_iterator was built from a const-qualified iterator type and
const_reference from a reference into const words, so operator[], at, front,
back and iteration on a const bit_vector, count and find over it,
construction from a list of bit_value and debug_string(first, last) could not
be instantiated.
---
 include/bitlib/bit-containers/bit_vector.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 110218c..926c90e 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -83,10 +83,10 @@ class bit_vector {
         using size_type = std::size_t;
         using difference_type = std::ptrdiff_t;
         using reference = bit_reference<WordType>;
-        using const_reference = const reference;
+        using const_reference = bit_value;
         using pointer = bit_pointer<WordType>;
         using iterator = bit_iterator<typename std::vector<WordType>::iterator>;
-        using const_iterator = bit_iterator<const typename std::vector<WordType>::const_iterator>;
+        using const_iterator = bit_iterator<typename std::vector<WordType>::const_iterator>;
 
 
         /*
@@ -138,7 +138,7 @@ class bit_vector {
          * Element Access
          */
         constexpr reference operator[](size_type pos);
-        constexpr reference operator[](size_type pos) const;
+        constexpr const_reference operator[](size_type pos) const;
         constexpr reference at(size_type pos);
         constexpr const_reference at(size_type pos) const;
         constexpr reference front();
@@ -363,7 +363,7 @@ constexpr typename bit_vector<WordType, Allocator>::reference
 bit_vector<WordType, Allocator>::operator[](size_type pos) {return begin()[pos];}
 
 template<class WordType, class Allocator>
-constexpr typename bit_vector<WordType, Allocator>::reference
+constexpr typename bit_vector<WordType, Allocator>::const_reference
 bit_vector<WordType, Allocator>::operator[](size_type pos) const {return begin()[pos];}
 
 template<class WordType, class Allocator>
@@ -643,9 +643,9 @@ constexpr void bit_vector<WordType, Allocator>::resize(size_type count, const va
 template<class WordType, class Allocator>
 constexpr std::string bit_vector<WordType, Allocator>::debug_string(const_iterator first, const_iterator last) {
     std::string ret = "";
-    iterator mem = first;
+    const_iterator mem = first;
     auto position = 0;
-    for (iterator it = first; it != last; ++it) {
+    for (const_iterator it = first; it != last; ++it) {
         if (position % digits == 0 && position != 0) {
             ret += " ";
         } else if (position % 8 == 0 && position != 0) {
-- 
2.43.0


From 8cdf3134faa3d0e117ea6f1c35ee906fdf32520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:00 +0000
Subject: [PATCH 13/19] fix: bit_vector works with and keeps the allocator it
 is given

The iterator types named std::vector<WordType> without the allocator, so no
other allocator compiled; the copy constructor with an allocator was declared
but not defined; construction from a range dropped an allocator that does not
propagate on assignment; assignment was noexcept even where it has to
allocate, and set the length before it could fail, so that a failed assignment
left a vector that claims storage it does not have.
---
 include/bitlib/bit-containers/bit_vector.hpp | 32 ++++++++++++++++----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 926c90e..666ccb7 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -15,6 +15,7 @@
 // C++ standard library
 #include <vector>
 #include <cmath>
+#include <memory>
 #include <stdexcept>
 #include <string>
 #include <iostream>
@@ -85,8 +86,8 @@ class bit_vector {
         using reference = bit_reference<WordType>;
         using const_reference = bit_value;
         using pointer = bit_pointer<WordType>;
-        using iterator = bit_iterator<typename std::vector<WordType>::iterator>;
-        using const_iterator = bit_iterator<typename std::vector<WordType>::const_iterator>;
+        using iterator = bit_iterator<typename std::vector<WordType, Allocator>::iterator>;
+        using const_iterator = bit_iterator<typename std::vector<WordType, Allocator>::const_iterator>;
 
 
         /*
@@ -130,8 +131,9 @@ class bit_vector {
         /*
          * Assignment
          */
-        constexpr bit_vector& operator=(const bit_vector<WordType, Allocator>& other) = default;
-        constexpr bit_vector& operator=(bit_vector<WordType, Allocator>&& other) noexcept;
+        constexpr bit_vector& operator=(const bit_vector<WordType, Allocator>& other);
+        constexpr bit_vector& operator=(bit_vector<WordType, Allocator>&& other)
+            noexcept(std::is_nothrow_move_assignable<std::vector<WordType, Allocator>>::value);
 
 
         /*
@@ -234,7 +236,7 @@ template<class RandomAccessIt>
 constexpr bit_vector<WordType, Allocator>::bit_vector(
         RandomAccessIt first,
         RandomAccessIt last,
-        const Allocator& alloc) {
+        const Allocator& alloc) : word_vector(alloc) {
     bit_vector<WordType, Allocator>::range_constructor(
         first,
         last,
@@ -242,6 +244,10 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
     );
 }
 
+template<class WordType, class Allocator>
+constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>& other, const Allocator& alloc)
+    : word_vector(other.word_vector, alloc), length_(other.length_) {}
+
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Allocator>&& other) noexcept
     : word_vector(std::move(other.word_vector)), length_(other.length_) {
@@ -347,9 +353,23 @@ constexpr bit_vector<WordType, Allocator>::~bit_vector() {
 // ------------------------ BIT VECTOR: ASSIGNMENT ------------------------ //
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>&
-bit_vector<WordType, Allocator>::operator=(bit_vector<WordType, Allocator>&& other) noexcept {
+bit_vector<WordType, Allocator>::operator=(const bit_vector<WordType, Allocator>& other) {
+    if (std::allocator_traits<Allocator>::propagate_on_container_copy_assignment::value
+            && word_vector.get_allocator() != other.word_vector.get_allocator()) {
+        // The words are released before those of the new allocator are obtained
+        clear();
+    }
+    word_vector = other.word_vector;
     length_ = other.length_;
+    return *this;
+}
+
+template<class WordType, class Allocator>
+constexpr bit_vector<WordType, Allocator>&
+bit_vector<WordType, Allocator>::operator=(bit_vector<WordType, Allocator>&& other)
+    noexcept(std::is_nothrow_move_assignable<std::vector<WordType, Allocator>>::value) {
     word_vector = std::move(other.word_vector);
+    length_ = other.length_;
     other.length_ = 0;
     return *this;
 }
-- 
2.43.0


From f17d39ce1ce66ddf6675617fc421885a23c780ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:00 +0000
Subject: [PATCH 14/19] fix: find over const words compiles with BITLIB_HWY

---
 include/bitlib/bit-algorithms/find.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/find.hpp b/include/bitlib/bit-algorithms/find.hpp
index 1c2c007..911e25a 100644
--- a/include/bitlib/bit-algorithms/find.hpp
+++ b/include/bitlib/bit-algorithms/find.hpp
@@ -79,7 +79,7 @@ constexpr bit_iterator<RandomAccessIt> find(
     }
 
     // SIMD
-    hn::ScalableTag<word_type> d;
+    hn::ScalableTag<typename std::remove_cv<word_type>::type> d;
     const auto z = hn::Zero(d);
     for (; std::distance(it, last.base()) >= hn::Lanes(d); it += hn::Lanes(d))
     {
-- 
2.43.0


From d39097dd29d9fbbd05f0be0d8f90eed2c5f18494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 15/19] fix: swap_ranges between different iterator types
 compiles

---
 include/bitlib/bit-algorithms/swap_ranges.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/swap_ranges.hpp b/include/bitlib/bit-algorithms/swap_ranges.hpp
index 67cd5a0..9af430a 100644
--- a/include/bitlib/bit-algorithms/swap_ranges.hpp
+++ b/include/bitlib/bit-algorithms/swap_ranges.hpp
@@ -106,7 +106,7 @@ constexpr bit_iterator<RandomAccessIt2> swap_ranges(
                         last1.position()
                 );
             }
-            return bit_iterator<RandomAccessIt1>(it2, last1.position());
+            return bit_iterator<RandomAccessIt2>(it2, last1.position());
 
         // first1 range spans mutliple words and is not aligned with first2
         } else {
-- 
2.43.0


From 7fbe6ce56a8991d428d7e33b8c792c9bdb114716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 16/19] fix: algorithms over words that are not contiguous

count and the vectorised fill, find, shift and transform took the address of a
word and read or wrote its neighbours in memory, whatever the iterator.
---
 include/bitlib/bit-algorithms/count.hpp     |  8 +++++++-
 include/bitlib/bit-algorithms/fill.hpp      |  2 ++
 include/bitlib/bit-algorithms/find.hpp      |  2 ++
 include/bitlib/bit-algorithms/shift.hpp     |  4 ++++
 include/bitlib/bit-algorithms/transform.hpp |  3 ++-
 include/bitlib/bit-iterator/bit_details.hpp | 20 ++++++++++++++++++++
 6 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-algorithms/count.hpp b/include/bitlib/bit-algorithms/count.hpp
index 8bbf411..5980263 100644
--- a/include/bitlib/bit-algorithms/count.hpp
+++ b/include/bitlib/bit-algorithms/count.hpp
@@ -94,7 +94,13 @@ count(
             //);
 
             // libpopcnt
-            result += popcnt(&*it, (digits / 8) * std::distance(it, last.base()));
+            if constexpr (_is_contiguous_iterator<RandomAccessIt>::value) {
+                result += popcnt(&*it, (digits / 8) * std::distance(it, last.base()));
+            } else {
+                for (; it != last.base(); ++it) {
+                    result += _popcnt(*it);
+                }
+            }
         }
         if (last.position() != 0) {
             word_type last_value = *last.base() << (digits - last.position());
diff --git a/include/bitlib/bit-algorithms/fill.hpp b/include/bitlib/bit-algorithms/fill.hpp
index 08f9c61..1b08697 100644
--- a/include/bitlib/bit-algorithms/fill.hpp
+++ b/include/bitlib/bit-algorithms/fill.hpp
@@ -62,6 +62,7 @@ void fill(bit_iterator<RandomAccessIt> first, bit_iterator<RandomAccessIt> last,
         }
 
 #ifdef BITLIB_HWY
+        if constexpr (_is_contiguous_iterator<RandomAccessIt>::value) {
         // Align to 64 bit boundary
         for (; it != last.base() && !is_aligned(&*it, 64); it++) {
             *it = fill_word;
@@ -72,6 +73,7 @@ void fill(bit_iterator<RandomAccessIt> first, bit_iterator<RandomAccessIt> last,
         {
             hn::Store(fill_vec, d, &*it);
         }
+        }
 #endif
         std::fill(it, last.base(), fill_word);
         if (last.position() != 0) {
diff --git a/include/bitlib/bit-algorithms/find.hpp b/include/bitlib/bit-algorithms/find.hpp
index 911e25a..7d3c581 100644
--- a/include/bitlib/bit-algorithms/find.hpp
+++ b/include/bitlib/bit-algorithms/find.hpp
@@ -65,6 +65,7 @@ constexpr bit_iterator<RandomAccessIt> find(
 
 // Waiting on github issue
 #ifdef BITLIB_HWY
+    if constexpr (_is_contiguous_iterator<RandomAccessIt>::value) {
     // Align the iterator
     while (it != last.base() && !is_aligned(&(*it), 64)) {
         if ((bv == bit1 && (*it == 0)) || (bv == bit0 && (*it == static_cast<word_type>(-1)))) {
@@ -98,6 +99,7 @@ constexpr bit_iterator<RandomAccessIt> find(
             return bit_iterator(it, (size_type) num_trailing_complementary_bits);
         }
     }
+    }
 #endif
 
     if (bv == bit1) {
diff --git a/include/bitlib/bit-algorithms/shift.hpp b/include/bitlib/bit-algorithms/shift.hpp
index e598e0c..4bc5c5c 100644
--- a/include/bitlib/bit-algorithms/shift.hpp
+++ b/include/bitlib/bit-algorithms/shift.hpp
@@ -184,6 +184,7 @@ bit_iterator<RandomAccessIt> shift_left(
 
     // Shift bit sequence to the lsb
 #ifdef BITLIB_HWY
+    if constexpr (_is_contiguous_iterator<RandomAccessIt>::value) {
     // Align to 64 bit boundary
     while (std::next(middle.base()) < last.base() && !is_aligned(&*first.base(), 64)) {
         *first.base() = _shrd<word_type>(*middle.base(), *std::next(middle.base()), offset);
@@ -200,6 +201,7 @@ bit_iterator<RandomAccessIt> shift_left(
         first += hn::Lanes(d_tag)*digits;
         middle += hn::Lanes(d_tag)*digits;
     }
+    }
 #endif
     auto first_base = first.base();
     auto middle_base = middle.base();
@@ -318,6 +320,7 @@ bit_iterator<RandomAccessIt> shift_right(
     if (bit::distance(first, middle) >= digits)
     {
 #ifdef BITLIB_HWY
+        if constexpr (_is_contiguous_iterator<RandomAccessIt>::value) {
         // Align to 64 bit boundary
         const hn::ScalableTag<word_type> d;
         while (std::prev(middle.base()) > first.base() && !is_aligned(&*(last.base() - hn::Lanes(d)), 64)) {
@@ -339,6 +342,7 @@ bit_iterator<RandomAccessIt> shift_right(
             last -= digits * hn::Lanes(d);
             middle -= digits * hn::Lanes(d);
         }
+        }
 #endif
 
         auto last_base_prev   = std::prev(last.base());
diff --git a/include/bitlib/bit-algorithms/transform.hpp b/include/bitlib/bit-algorithms/transform.hpp
index 8857788..f654b6d 100644
--- a/include/bitlib/bit-algorithms/transform.hpp
+++ b/include/bitlib/bit-algorithms/transform.hpp
@@ -80,7 +80,8 @@ constexpr bit_iterator<RandomAccessIt> transform(
         if (is_first_aligned && remaining_bits_to_op > digits) {
             auto N = ::std::distance(firstIt, last.base());
 #ifdef BITLIB_HWY
-            if constexpr (std::is_same_v<UnaryOperation, std::bit_not<word_type>>)
+            if constexpr (std::is_same_v<UnaryOperation, std::bit_not<word_type>>
+                    && _is_contiguous_iterator<RandomAccessIt>::value)
             {
                 // Align to 64 bit boundary
                 for (; firstIt != last.base() && !is_aligned(&*firstIt, 64); firstIt++, it++) {
diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index 595cd81..bb3dee1 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -16,6 +16,7 @@
 // ================================ PREAMBLE ================================ //
 // C++ standard library
 #include <tuple>
+#include <vector>
 #include <limits>
 #include <cassert>
 #include <cstdint>
@@ -94,6 +95,25 @@ struct _cv_iterator_traits
 
 
 
+/* ************* IMPLEMENTATION DETAILS: CONTIGUOUS ITERATORS *************** */
+// Contiguous iterator structure definition: whether the address of a word can be
+// used to reach the words next to it
+template <class Iterator>
+struct _is_contiguous_iterator
+{
+    using _value_type = typename std::iterator_traits<Iterator>::value_type;
+    static constexpr bool value = std::is_pointer<Iterator>::value
+        || std::is_same<Iterator, typename std::vector<_value_type>::iterator>::value
+        || std::is_same<Iterator, typename std::vector<_value_type>::const_iterator>::value
+#if defined(__cpp_lib_concepts)
+        || std::contiguous_iterator<Iterator>
+#endif
+        ;
+};
+/* ************************************************************************** */
+
+
+
 /* *********** IMPLEMENTATION DETAILS: NARROWEST AND WIDEST TYPES *********** */
 // Narrowest type structure declaration
 template <class... T>
-- 
2.43.0


From 37285470d2993ebbf218d53369738ee647ca999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 17/19] fix: copy, move, copy_backward and equal accept const
 words as source

---
 include/bitlib/bit-algorithms/copy.hpp          | 2 +-
 include/bitlib/bit-algorithms/copy_backward.hpp | 2 +-
 include/bitlib/bit-algorithms/equal.hpp         | 4 ++--
 include/bitlib/bit-algorithms/move.hpp          | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/bitlib/bit-algorithms/copy.hpp b/include/bitlib/bit-algorithms/copy.hpp
index 2d50751..379b58d 100644
--- a/include/bitlib/bit-algorithms/copy.hpp
+++ b/include/bitlib/bit-algorithms/copy.hpp
@@ -35,7 +35,7 @@ constexpr bit_iterator<RandomAccessIt2> copy(bit_iterator<RandomAccessIt1> first
 {
     // Types and constants
     using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using src_word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt1>::word_type>::type;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
diff --git a/include/bitlib/bit-algorithms/copy_backward.hpp b/include/bitlib/bit-algorithms/copy_backward.hpp
index 55bd6f6..99e079d 100644
--- a/include/bitlib/bit-algorithms/copy_backward.hpp
+++ b/include/bitlib/bit-algorithms/copy_backward.hpp
@@ -32,7 +32,7 @@ constexpr bit_iterator<RandomAccessIt2> copy_backward(bit_iterator<RandomAccessI
 {
     // Types and constants
     using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using src_word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt1>::word_type>::type;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
diff --git a/include/bitlib/bit-algorithms/equal.hpp b/include/bitlib/bit-algorithms/equal.hpp
index e3fb144..d166c32 100644
--- a/include/bitlib/bit-algorithms/equal.hpp
+++ b/include/bitlib/bit-algorithms/equal.hpp
@@ -34,8 +34,8 @@ constexpr bool equal(
 )
 {
     // Types and constants
-    using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using dst_word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt2>::word_type>::type;
+    using src_word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt1>::word_type>::type;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
diff --git a/include/bitlib/bit-algorithms/move.hpp b/include/bitlib/bit-algorithms/move.hpp
index 401cbfd..62aeabe 100644
--- a/include/bitlib/bit-algorithms/move.hpp
+++ b/include/bitlib/bit-algorithms/move.hpp
@@ -30,7 +30,7 @@ constexpr bit_iterator<RandomAccessIt2> move(bit_iterator<RandomAccessIt1> first
 {
     // Types and constants
     using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using src_word_type = typename ::std::remove_cv<typename bit_iterator<RandomAccessIt1>::word_type>::type;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
-- 
2.43.0


From 6c848431f70001c6a4354958530c1dd3d6d7d3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 18/19] fix: blending a whole word does not shift by the width
 of the word

---
 include/bitlib/bit-iterator/bit_details.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index bb3dee1..949c813 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -776,7 +776,7 @@ constexpr T _bitblend(T src0, T src1, T start, T len) noexcept
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
     constexpr T one = 1;
-    const T msk = ((one << len) * (len < digits) - one) << start;
+    const T msk = static_cast<T>(len < digits ? (one << len) - one : ~T()) << start;
     return src0 ^ ((src0 ^ src1) & msk * (start < digits));
 }
 // -------------------------------------------------------------------------- //
-- 
2.43.0


From adbeb215669feb89a78d703b0ce3c95779f76140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 19/19] fix: obtain a word for each word of bits, not one for
 each bit, when constructing from bits, booleans or text

---
 include/bitlib/bit-containers/bit_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 666ccb7..9109370 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -226,7 +226,7 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
         bit_iterator<RandomAccessIt> first,
         bit_iterator<RandomAccessIt> last,
         const Allocator& alloc)
-    : word_vector(distance(first, last), alloc), length_(distance(first, last)) {
+    : word_vector(word_count(distance(first, last)), alloc), length_(distance(first, last)) {
     copy(first, last, this->begin());
 }
 
@@ -286,7 +286,7 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(std::string_view s) {
     this->length_ = std::count(s.begin(), s.end(), '0') + std::count(s.begin(), s.end(), '1');
-    this->word_vector = std::vector<WordType, Allocator>(this->length_);
+    this->word_vector = std::vector<WordType, Allocator>(word_count(this->length_));
     size_type i = 0;
     for (char c : s) {
         if (c == '0') {
@@ -311,7 +311,7 @@ constexpr bit_vector<WordType, Allocator>::range_constructor(
         RandomAccessIt first,
         RandomAccessIt last,
         const Allocator& alloc) {
-    word_vector = std::vector<WordType, Allocator>(std::distance(first, last), alloc);
+    word_vector = std::vector<WordType, Allocator>(word_count(std::distance(first, last)), alloc);
     length_ = std::distance(first, last);
     std::transform(
             first,
-- 
2.43.0

