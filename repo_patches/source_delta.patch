From 4aa418fc3e9ae48311b95e55e2850a63b07f5f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:46 +0000
Subject: [PATCH 01/34] fix: global::operator!= must be the complement of
 operator==

---
 include/ktl/allocators/global.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/allocators/global.h b/include/ktl/allocators/global.h
index 214c209..da374f5 100644
--- a/include/ktl/allocators/global.h
+++ b/include/ktl/allocators/global.h
@@ -46,7 +46,7 @@ namespace ktl
 
 		bool operator!=(const global& rhs) const
 		{
-			return true;
+			return false;
 		}
 
 #pragma region Allocation
-- 
2.43.0


From 64d159fc1d5dce7ec2fe6344766e5a972785fc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 02/34] fix: overflow must not count a failed allocation as
 leaked memory

---
 include/ktl/allocators/overflow.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 96ab73d..f4c687d 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -104,14 +104,14 @@ namespace ktl
 		void* allocate(size_type n)
 			noexcept(detail::has_nothrow_allocate_v<Alloc>)
 		{
-			m_Allocs += n;
-
 			size_type size = n + OVERFLOW_SIZE * 2;
 			char* ptr = reinterpret_cast<char*>(m_Alloc.allocate(size));
 
 			if (!ptr)
 				return nullptr;
 
+			m_Allocs += n;
+
 			std::memset(ptr, OVERFLOW_PATTERN, OVERFLOW_SIZE);
 			std::memset(ptr + OVERFLOW_SIZE + n, OVERFLOW_PATTERN, OVERFLOW_SIZE);
 
-- 
2.43.0


From 5a9da428dae8bc8925c5761eae94aeb1a7e73a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 03/34] fix: overflow::allocate must refuse sizes that wrap
 around when padded

---
 include/ktl/allocators/overflow.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index f4c687d..5d6e43c 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -105,6 +105,11 @@ namespace ktl
 			noexcept(detail::has_nothrow_allocate_v<Alloc>)
 		{
 			size_type size = n + OVERFLOW_SIZE * 2;
+
+			// The padding must not wrap the size around
+			if (size < n)
+				return nullptr;
+
 			char* ptr = reinterpret_cast<char*>(m_Alloc.allocate(size));
 
 			if (!ptr)
-- 
2.43.0


From afedc296f6d543714e0b8e26048d6ab2de425257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 04/34] fix: aligned_new must not construct into a failed
 allocation

---
 include/ktl/utility/aligned_malloc.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index 694f1df..1232ce3 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -91,7 +91,8 @@ namespace ktl::detail
         noexcept(noexcept(T(std::declval<Args>()...)))
     {
         T* p = static_cast<T*>(aligned_malloc(sizeof(T), alignment));
-        ::new(p) T(std::forward<Args>(args)...);
+        if (p != nullptr)
+            ::new(p) T(std::forward<Args>(args)...);
         return p;
     }
 
-- 
2.43.0


From efb41eaa11293129ed881ed6f4cda29d4e0d4e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 05/34] fix: cascading must survive and not grow when an
 allocation fails

---
 include/ktl/allocators/cascading.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index d32a927..99fb448 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -97,8 +97,13 @@ namespace ktl
 		{
 			// Add an initial allocator
 			if (!m_Node)
+			{
 				m_Node = detail::aligned_new<node>(detail::ALIGNMENT);
 
+				if (!m_Node)
+					return nullptr;
+			}
+
 			if constexpr (detail::has_max_size_v<Alloc>)
 			{
 				if (n > m_Node->Allocator.max_size())
@@ -111,11 +116,23 @@ namespace ktl
 			if (p == nullptr)
 			{
 				node* next = m_Node;
+				node* fresh = detail::aligned_new<node>(detail::ALIGNMENT);
 
-				m_Node = detail::aligned_new<node>(detail::ALIGNMENT);
+				if (!fresh)
+					return nullptr;
+
+				m_Node = fresh;
 				m_Node->Next = next;
 
 				p = m_Node->Allocator.allocate(n);
+
+				// If even an unused allocator is unable to allocate it, don't keep the new one
+				if (p == nullptr)
+				{
+					m_Node = next;
+
+					detail::aligned_delete(fresh);
+				}
 			}
 
 			if (p)
-- 
2.43.0


From a7527216c7d5964ddbbdee88ddd20ff0dc971f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 06/34] fix: cascading::max_size must work before the first
 allocation

---
 include/ktl/allocators/cascading.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index 99fb448..78c00b7 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -253,6 +253,10 @@ namespace ktl
 		max_size() const
 			noexcept(detail::has_nothrow_max_size_v<A>)
 		{
+			// No allocator has been created until the first allocation
+			if (!m_Node)
+				return Alloc().max_size();
+
 			return m_Node->Allocator.max_size();
 		}
 
-- 
2.43.0


From cb55542d69130b8b7a9e4b2339ce6f22993b2ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 07/34] fix: linear_allocator and stack_allocator must refuse
 sizes that wrap around, and never hand out their end

---
 include/ktl/allocators/linear_allocator.h | 4 +++-
 include/ktl/allocators/stack_allocator.h  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/linear_allocator.h b/include/ktl/allocators/linear_allocator.h
index 7d3508f..8819ea0 100644
--- a/include/ktl/allocators/linear_allocator.h
+++ b/include/ktl/allocators/linear_allocator.h
@@ -75,8 +75,10 @@ namespace ktl
 		void* allocate(size_t n) noexcept
 		{
 			size_t totalSize = n + detail::align_to_architecture(n);
+			size_t usedSize = size_t(m_Free - m_Data);
 
-			if ((size_t(m_Free - m_Data) + totalSize) > Size)
+			// Compare against what is left, as the sum could wrap around
+			if (totalSize < n || usedSize >= Size || totalSize > Size - usedSize)
 				return nullptr;
 
 			char* current = m_Free;
diff --git a/include/ktl/allocators/stack_allocator.h b/include/ktl/allocators/stack_allocator.h
index 324b489..37ff0ee 100644
--- a/include/ktl/allocators/stack_allocator.h
+++ b/include/ktl/allocators/stack_allocator.h
@@ -63,8 +63,10 @@ namespace ktl
 		void* allocate(size_t n) noexcept
 		{
 			size_t totalSize = n + detail::align_to_architecture(n);
+			size_t usedSize = size_t(m_Block->Free - m_Block->Data);
 
-			if ((size_t(m_Block->Free - m_Block->Data) + totalSize) > Size)
+			// Compare against what is left, as the sum could wrap around
+			if (totalSize < n || usedSize >= Size || totalSize > Size - usedSize)
 				return nullptr;
 
 			char* current = m_Block->Free;
-- 
2.43.0


From 7f34518aba59da81dfa6e921b814a4ee4437295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 08/34] fix: shared must survive assignment from a handle on
 the same allocator

---
 include/ktl/allocators/shared.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/ktl/allocators/shared.h b/include/ktl/allocators/shared.h
index 6f28ae1..feb1ae0 100644
--- a/include/ktl/allocators/shared.h
+++ b/include/ktl/allocators/shared.h
@@ -95,6 +95,9 @@ namespace ktl
 		shared& operator=(const shared& rhs)
 			noexcept(noexcept(decrement()))
 		{
+			if (m_Block == rhs.m_Block)
+				return *this;
+
 			decrement();
 
 			m_Block = rhs.m_Block;
@@ -107,6 +110,9 @@ namespace ktl
 		shared& operator=(shared&& rhs)
 			noexcept(noexcept(decrement()))
 		{
+			if (this == &rhs)
+				return *this;
+
 			decrement();
 
 			m_Block = rhs.m_Block;
-- 
2.43.0


From f02278cfc6e216a834df75b4b0b3e4101859ec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 09/34] fix: comparing shared handles must not read the
 allocator's state without synchronisation

---
 include/ktl/allocators/reference.h | 5 +++--
 include/ktl/allocators/shared.h    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/ktl/allocators/reference.h b/include/ktl/allocators/reference.h
index 35574a9..6f5ca32 100644
--- a/include/ktl/allocators/reference.h
+++ b/include/ktl/allocators/reference.h
@@ -49,13 +49,14 @@ namespace ktl
 		bool operator==(const reference& rhs) const
 			noexcept(detail::has_nothrow_equal_v<Alloc>)
 		{
-			return m_Alloc == rhs.m_Alloc && *m_Alloc == *rhs.m_Alloc;
+			// References to the same object always refer to the same allocator
+			return m_Alloc == rhs.m_Alloc;
 		}
 
 		bool operator!=(const reference& rhs) const
 			noexcept(detail::has_nothrow_not_equal_v<Alloc>)
 		{
-			return m_Alloc != rhs.m_Alloc || *m_Alloc != *rhs.m_Alloc;
+			return m_Alloc != rhs.m_Alloc;
 		}
 
 #pragma region Allocation
diff --git a/include/ktl/allocators/shared.h b/include/ktl/allocators/shared.h
index feb1ae0..d3ee1c4 100644
--- a/include/ktl/allocators/shared.h
+++ b/include/ktl/allocators/shared.h
@@ -125,13 +125,14 @@ namespace ktl
 		bool operator==(const shared& rhs) const
 			noexcept(detail::has_nothrow_equal_v<Alloc>)
 		{
-			return m_Block == rhs.m_Block && m_Block->Allocator == rhs.m_Block->Allocator;
+			// Handles on the same block always refer to the same allocator
+			return m_Block == rhs.m_Block;
 		}
 
 		bool operator!=(const shared& rhs) const
 			noexcept(detail::has_nothrow_not_equal_v<Alloc>)
 		{
-			return m_Block != rhs.m_Block || m_Block->Allocator != rhs.m_Block->Allocator;
+			return m_Block != rhs.m_Block;
 		}
 
 #pragma region Allocation
-- 
2.43.0


From 02e03255bdadcf98330345404a76735fb1176f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 10/34] fix: shared must report failure when its block could
 not be allocated

---
 include/ktl/allocators/shared.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/ktl/allocators/shared.h b/include/ktl/allocators/shared.h
index d3ee1c4..e060cb3 100644
--- a/include/ktl/allocators/shared.h
+++ b/include/ktl/allocators/shared.h
@@ -139,6 +139,10 @@ namespace ktl
 		void* allocate(size_t n)
 			noexcept(detail::has_nothrow_allocate_v<Alloc>)
 		{
+			// The block could not be allocated
+			if (!m_Block)
+				return nullptr;
+
 			return m_Block->Allocator.allocate(n);
 		}
 
@@ -173,6 +177,9 @@ namespace ktl
 		max_size() const
 			noexcept(detail::has_nothrow_max_size_v<A>)
 		{
+			if (!m_Block)
+				return 0;
+
 			return m_Block->Allocator.max_size();
 		}
 
@@ -181,6 +188,9 @@ namespace ktl
 		owns(void* p) const
 			noexcept(detail::has_nothrow_owns_v<A>)
 		{
+			if (!m_Block)
+				return false;
+
 			return m_Block->Allocator.owns(p);
 		}
 #pragma endregion
-- 
2.43.0


From 67038ea6919b41e6de341215492506d5c8a6b3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 11/34] fix: threaded::owns and threaded::max_size must hold
 the lock

---
 include/ktl/allocators/threaded.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/ktl/allocators/threaded.h b/include/ktl/allocators/threaded.h
index bc7aa10..51cdcdc 100644
--- a/include/ktl/allocators/threaded.h
+++ b/include/ktl/allocators/threaded.h
@@ -98,17 +98,19 @@ namespace ktl
 #pragma region Utility
 		template<typename A = Alloc>
 		typename std::enable_if<detail::has_max_size_v<A>, size_type>::type
-		max_size() const
-			noexcept(detail::has_nothrow_max_size_v<A>)
+		max_size() const // Lock cannot be noexcept
 		{
+			std::lock_guard<std::mutex> lock(m_Lock);
+
 			return m_Alloc.max_size();
 		}
 
 		template<typename A = Alloc>
 		typename std::enable_if<detail::has_owns_v<A>, bool>::type
-		owns(void* p) const
-			noexcept(detail::has_nothrow_owns_v<A>)
+		owns(void* p) const // Lock cannot be noexcept
 		{
+			std::lock_guard<std::mutex> lock(m_Lock);
+
 			return m_Alloc.owns(p);
 		}
 #pragma endregion
@@ -125,6 +127,6 @@ namespace ktl
 
 	private:
 		KTL_EMPTY_BASE Alloc m_Alloc;
-		std::mutex m_Lock;
+		mutable std::mutex m_Lock;
 	};
 }
\ No newline at end of file
-- 
2.43.0


From 35aaecf55b55b04fcbeb06dd288c01c71f203804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 12/34] fix: type_allocator::allocate must refuse counts whose
 size in bytes wraps around

---
 include/ktl/allocators/type_allocator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ktl/allocators/type_allocator.h b/include/ktl/allocators/type_allocator.h
index fc14566..48f74e1 100644
--- a/include/ktl/allocators/type_allocator.h
+++ b/include/ktl/allocators/type_allocator.h
@@ -5,6 +5,7 @@
 
 #include "type_allocator_fwd.h"
 
+#include <limits>
 #include <memory>
 #include <type_traits>
 
@@ -98,6 +99,10 @@ namespace ktl
 		value_type* allocate(size_t n)
 			noexcept(noexcept(m_Alloc.allocate(n)))
 		{
+			// The size in bytes must not wrap around
+			if (n > (std::numeric_limits<size_t>::max)() / sizeof(value_type))
+				return nullptr;
+
 			return reinterpret_cast<value_type*>(m_Alloc.allocate(sizeof(value_type) * n));
 		}
 
-- 
2.43.0


From 3ad009c996afaa037290ec595f6b674a1f0537a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:30 +0000
Subject: [PATCH 13/34] fix: moving a container onto another allocator must
 return the old block with its own size

---
 include/ktl/containers/binary_heap.h    | 2 +-
 include/ktl/containers/trivial_array.h  | 2 +-
 include/ktl/containers/trivial_vector.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index b243ddd..b5659ab 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -163,7 +163,7 @@ namespace ktl
                 Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
 
             if (other.m_Begin != nullptr)
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.m_Capacity * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.m_Capacity);
 
             other.m_Capacity = 0;
             other.m_Size = 0;
diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index 45140d3..4b43488 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -144,7 +144,7 @@ namespace ktl
             {
                 std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
                 
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.size() * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.size());
             }
             
 			other.m_Begin = nullptr;
diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 68d2986..29177e3 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -155,7 +155,7 @@ namespace ktl
             {
                 std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
                 
-                Traits::deallocate(other.m_Alloc, other.m_Begin, other.capacity() * sizeof(T));
+                Traits::deallocate(other.m_Alloc, other.m_Begin, other.capacity());
             }
             
 			other.m_Begin = nullptr;
-- 
2.43.0


From 9ca3a9b80353da479e4d9650511eadd81ab12246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:30 +0000
Subject: [PATCH 14/34] fix: moving a binary_heap onto another allocator must
 destroy the elements it leaves behind

---
 include/ktl/containers/binary_heap.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index b5659ab..bff81b9 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -160,7 +160,10 @@ namespace ktl
         {
             // Moving using a different allocator means we can't just move, we have to reallocate
             for (size_t i = 0; i < m_Size; i++)
-                Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
+            {
+                Traits::construct(m_Alloc, m_Begin + i, std::move(other.m_Begin[i]));
+                Traits::destroy(other.m_Alloc, other.m_Begin + i);
+            }
 
             if (other.m_Begin != nullptr)
                 Traits::deallocate(other.m_Alloc, other.m_Begin, other.m_Capacity);
-- 
2.43.0


From 7e8a58e35c622258216740cbe1507eab923f2ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:30 +0000
Subject: [PATCH 15/34] fix: containers must survive assignment from themselves

---
 include/ktl/containers/binary_heap.h    | 3 +++
 include/ktl/containers/trivial_array.h  | 3 +++
 include/ktl/containers/trivial_vector.h | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index bff81b9..04cea0a 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -187,6 +187,9 @@ namespace ktl
 
         binary_heap& operator=(const binary_heap& other) noexcept(std::is_nothrow_copy_assignable_v<T>)
         {
+            if (this == &other)
+                return *this;
+
             if (m_Begin)
             {
                 for (size_t i = 0; i < m_Size; i++)
diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index 4b43488..77923c8 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -159,6 +159,9 @@ namespace ktl
 
 		trivial_array& operator=(const trivial_array& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, size());
 
diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 29177e3..af077cc 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -171,6 +171,9 @@ namespace ktl
 
 		trivial_vector& operator=(const trivial_vector& other) noexcept
 		{
+			if (this == &other)
+				return *this;
+
 			if (m_Begin != nullptr)
 				Traits::deallocate(m_Alloc, m_Begin, capacity());
 
-- 
2.43.0


From 639c7f5498a508253856c768bc03eb874ca85e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:30 +0000
Subject: [PATCH 16/34] fix: popping the last element of a binary_heap must not
 use it after its destruction

---
 include/ktl/containers/binary_heap.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index 04cea0a..082330e 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -334,9 +334,13 @@ namespace ktl
 
             T root = m_Begin[0];
 
-            m_Begin[0] = std::move(m_Begin[--m_Size]);
+            if (--m_Size > 0)
+                m_Begin[0] = std::move(m_Begin[m_Size]);
+
             Traits::destroy(m_Alloc, m_Begin + m_Size);
-            percolateDown(0);
+
+            if (m_Size > 0)
+                percolateDown(0);
 
             return root;
         }
-- 
2.43.0


From e0cde8c5e9795ccf92b90eced81adce29d3658bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:30 +0000
Subject: [PATCH 17/34] fix: trivial_vector::pop_back and
 trivial_vector::emplace must compile and work across growth

---
 include/ktl/containers/trivial_vector.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index af077cc..e85745b 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -380,12 +380,16 @@ namespace ktl
 		{
             KTL_ASSERT(iter >= m_Begin && iter <= m_End);
             
+			// Expanding invalidates the iterator, and the arguments may refer to an element of this vector
+			size_t index = iter - m_Begin;
+			T element(std::forward<Args>(args)...);
+
 			if (m_End == m_EndMax)
 				expand(1);
             
-            std::memmove(const_cast<iterator>(iter + 1), iter, (m_End - iter) * sizeof(T));
+            std::memmove(m_Begin + index + 1, m_Begin + index, (m_End - (m_Begin + index)) * sizeof(T));
             
-			*iter = T(std::forward<Args>(args)...);
+			m_Begin[index] = element;
 			m_End++;
 		}
         
@@ -427,7 +431,7 @@ namespace ktl
 		 * @brief Removes the last element from the vector and returns it.
 		 * @return The last element in the vector.
 		*/
-		T pop_back() noexcept { return m_Begin[--m_End]; }
+		T pop_back() noexcept { return *--m_End; }
 
 		/**
 		 * @brief Clears all elements in the vector.
-- 
2.43.0


From 7b0c195cc02616140a1116592f311eddfefa34f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:30 +0000
Subject: [PATCH 18/34] fix: adding an element of the container to itself must
 work when it has to grow

---
 include/ktl/containers/binary_heap.h    |  9 +++++++--
 include/ktl/containers/trivial_vector.h | 21 ++++++++++++++++++---
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index 082330e..e5bdec9 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -304,9 +304,14 @@ namespace ktl
         iterator insert(V&& value) noexcept
         {
             if (m_Size == m_Capacity)
+            {
+                // The value may be an element of this heap
+                T element(std::forward<V>(value));
                 expand(1);
-
-            Traits::construct(m_Alloc, m_Begin + m_Size, std::forward<V>(value));
+                Traits::construct(m_Alloc, m_Begin + m_Size, std::move(element));
+            }
+            else
+                Traits::construct(m_Alloc, m_Begin + m_Size, std::forward<V>(value));
 
             size_t index = percolateUp(m_Size++);
 
diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index e85745b..9a8b2b8 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -311,8 +311,14 @@ namespace ktl
 		iterator push_back(const T& element) noexcept
 		{
 			if (m_End == m_EndMax)
+			{
+				// The element may be part of this vector
+				T copy(element);
 				expand(1);
-			*m_End = element;
+				*m_End = copy;
+			}
+			else
+				*m_End = element;
 
 			return m_End++;
 		}
@@ -325,8 +331,14 @@ namespace ktl
 		iterator push_back(T&& element) noexcept
 		{
 			if (m_End == m_EndMax)
+			{
+				// The element may be part of this vector
+				T copy(std::move(element));
 				expand(1);
-			*m_End = std::move(element);
+				*m_End = std::move(copy);
+			}
+			else
+				*m_End = std::move(element);
 
 			return m_End++;
 		}
@@ -361,9 +373,12 @@ namespace ktl
 		template<typename... Args>
 		iterator emplace_back(Args&&... args) noexcept
 		{
+			// The arguments may refer to an element of this vector
+			T element(std::forward<Args>(args)...);
+
 			if (m_End == m_EndMax)
 				expand(1);
-			*m_End = T(std::forward<Args>(args)...);
+			*m_End = std::move(element);
 
 			return m_End++;
 		}
-- 
2.43.0


From cc07987bf1375a3d4f5b195ec5716468fd6747be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:40 +0000
Subject: [PATCH 19/34] fix: trivial_vector must survive an allocator that
 refuses

---
 include/ktl/containers/trivial_vector.h | 84 ++++++++++++++++---------
 1 file changed, 53 insertions(+), 31 deletions(-)

diff --git a/include/ktl/containers/trivial_vector.h b/include/ktl/containers/trivial_vector.h
index 9a8b2b8..43b2d20 100644
--- a/include/ktl/containers/trivial_vector.h
+++ b/include/ktl/containers/trivial_vector.h
@@ -60,7 +60,7 @@ namespace ktl
 		explicit trivial_vector(size_t n, const Alloc& allocator = Alloc()) :
 			m_Alloc(allocator),
 			m_Begin(Traits::allocate(m_Alloc, n)),
-			m_End(m_Begin + n),
+			m_End(m_Begin ? m_Begin + n : nullptr),
 			m_EndMax(m_End) {}
 
 		/**
@@ -72,10 +72,10 @@ namespace ktl
 		explicit trivial_vector(size_t n, const T& value, const Alloc& allocator = Alloc()) :
 			m_Alloc(allocator),
 			m_Begin(Traits::allocate(m_Alloc, n)),
-			m_End(m_Begin + n),
+			m_End(m_Begin ? m_Begin + n : nullptr),
 			m_EndMax(m_End)
 		{
-			std::uninitialized_fill_n<T*, size_t>(m_Begin, n, value);
+			std::uninitialized_fill_n<T*, size_t>(m_Begin, size(), value);
 		}
 
 		/**
@@ -86,9 +86,13 @@ namespace ktl
 		trivial_vector(std::initializer_list<T> initializer, const Alloc& allocator = Alloc()) :
 			m_Alloc(allocator),
 			m_Begin(Traits::allocate(m_Alloc, initializer.size())),
-			m_End(m_Begin + initializer.size()),
+			m_End(m_Begin ? m_Begin + initializer.size() : nullptr),
 			m_EndMax(m_End)
 		{
+			// The memory may have been refused
+			if (m_Begin == nullptr)
+				return;
+
 			T* dst = m_Begin;
 			for (auto value : initializer)
 			{
@@ -106,20 +110,20 @@ namespace ktl
 		explicit trivial_vector(const T* first, const T* last, const Alloc& allocator = Alloc()) :
 			m_Alloc(allocator),
 			m_Begin(Traits::allocate(m_Alloc, size_t(last - first))),
-			m_End(m_Begin + size_t(last - first)),
+			m_End(m_Begin ? m_Begin + size_t(last - first) : nullptr),
 			m_EndMax(m_End)
 		{
-			size_t n = last - first;
-			std::memcpy(m_Begin, first, n * sizeof(T));
+			if (m_Begin != nullptr)
+				std::memcpy(m_Begin, first, size() * sizeof(T));
 		}
 
 		trivial_vector(const trivial_vector& other) noexcept :
 			m_Alloc(Traits::select_on_container_copy_construction(static_cast<Alloc>(other.m_Alloc))),
 			m_Begin(Traits::allocate(m_Alloc, other.size())),
-			m_End(m_Begin + other.size()),
+			m_End(m_Begin ? m_Begin + other.size() : nullptr),
 			m_EndMax(m_End)
 		{
-            if (other.m_Begin != nullptr)
+            if (m_Begin != nullptr && other.m_Begin != nullptr)
 			    std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
 		}
 
@@ -137,19 +141,23 @@ namespace ktl
 		trivial_vector(const trivial_vector& other, const Alloc& allocator) noexcept :
 			m_Alloc(allocator),
 			m_Begin(Traits::allocate(m_Alloc, other.size())),
-			m_End(m_Begin + other.size()),
+			m_End(m_Begin ? m_Begin + other.size() : nullptr),
 			m_EndMax(m_End)
 		{
-			if (other.m_Begin != nullptr)
+			if (m_Begin != nullptr && other.m_Begin != nullptr)
 				std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
 		}
 
 		trivial_vector(trivial_vector&& other, const Alloc& allocator) noexcept :
 			m_Alloc(allocator),
 			m_Begin(Traits::allocate(m_Alloc, other.size())),
-			m_End(m_Begin + other.size()),
+			m_End(m_Begin ? m_Begin + other.size() : nullptr),
 			m_EndMax(m_End)
 		{
+            // The elements stay where they are if there is no memory to move them to
+            if (m_Begin == nullptr && !other.empty())
+                return;
+
             // Moving using a different allocator means we can't just move, we have to reallocate
             if (other.m_Begin != nullptr)
             {
@@ -183,11 +191,16 @@ namespace ktl
 
 			T* alBlock = Traits::allocate(m_Alloc, n);
 
+			// The vector is left empty if there is no memory for the copy
+			if (alBlock == nullptr)
+				n = 0;
+
 			m_Begin = alBlock;
 			m_End = m_Begin + n;
 			m_EndMax = m_Begin + n;
 
-			std::memcpy(m_Begin, other.m_Begin, n * sizeof(T));
+			if (n > 0)
+				std::memcpy(m_Begin, other.m_Begin, n * sizeof(T));
 			return *this;
 		}
 
@@ -283,12 +296,13 @@ namespace ktl
 
 		/**
 		 * @brief Resizes the vector to the given size.
+		 * @note Does nothing if the memory for it could not be allocated
 		 * @param n The size to resize to.
 		*/
 		void resize(size_t n) noexcept
 		{
-			if (capacity() < n)
-				expand(n - capacity());
+			if (capacity() < n && !expand(n - capacity()))
+				return;
 
 			m_End = m_Begin + n;
 		}
@@ -306,7 +320,7 @@ namespace ktl
 		/**
 		 * @brief Pushes a new element into the vector by copying it.
          * @param value The element to copy into the vector.
-         * @return An iterator to the element that was added.
+         * @return An iterator to the element that was added or end() if there was no memory for it.
 		*/
 		iterator push_back(const T& element) noexcept
 		{
@@ -314,7 +328,8 @@ namespace ktl
 			{
 				// The element may be part of this vector
 				T copy(element);
-				expand(1);
+				if (!expand(1))
+					return m_End;
 				*m_End = copy;
 			}
 			else
@@ -326,7 +341,7 @@ namespace ktl
 		/**
 		 * @brief Pushes a new element into the vector by moving it.
 		 * @param value The element to move into the vector.
-		 * @return An iterator to the element that was added.
+		 * @return An iterator to the element that was added or end() if there was no memory for it.
 		*/
 		iterator push_back(T&& element) noexcept
 		{
@@ -334,7 +349,8 @@ namespace ktl
 			{
 				// The element may be part of this vector
 				T copy(std::move(element));
-				expand(1);
+				if (!expand(1))
+					return m_End;
 				*m_End = std::move(copy);
 			}
 			else
@@ -347,14 +363,14 @@ namespace ktl
 		 * @brief Pushes a range of values into the vector.
 		 * @param first A pointer to the first element.
 		 * @param last A pointer one element past the last element.
-		 * @return An iterator to the element that was added.
+		 * @return An iterator to the element that was added or end() if there was no memory for it.
 		*/
 		iterator push_back(const T* first, const T* last) noexcept
 		{
 			const size_t n = (last - first);
 
-			if (size_t(m_EndMax - m_End) < n)
-				expand(n);
+			if (size_t(m_EndMax - m_End) < n && !expand(n))
+				return m_End;
 
 			T* lastElement = m_End;
 			m_End += n;
@@ -368,7 +384,7 @@ namespace ktl
 		 * @brief Pushes a new element into the vector by constructing it.
 		 * @tparam ...Args Variadic template arguments.
 		 * @param ...args Any arguments to use in the construction of the element.
-		 * @return An iterator to the element that was added.
+		 * @return An iterator to the element that was added or end() if there was no memory for it.
 		*/
 		template<typename... Args>
 		iterator emplace_back(Args&&... args) noexcept
@@ -376,8 +392,8 @@ namespace ktl
 			// The arguments may refer to an element of this vector
 			T element(std::forward<Args>(args)...);
 
-			if (m_End == m_EndMax)
-				expand(1);
+			if (m_End == m_EndMax && !expand(1))
+				return m_End;
 			*m_End = std::move(element);
 
 			return m_End++;
@@ -388,7 +404,7 @@ namespace ktl
 		 * @tparam ...Args Variadic template arguments.
 		 * @param iter An iterator pointing to the location where the new element should be emplaced.
 		 * @param ...args Any arguments to use in the construction of the element.
-		 * @return An iterator to the element that was added.
+		 * @return An iterator to the element that was added or end() if there was no memory for it.
 		*/
 		template<typename... Args>
 		void emplace(const_iterator iter, Args&&... args) noexcept
@@ -399,8 +415,8 @@ namespace ktl
 			size_t index = iter - m_Begin;
 			T element(std::forward<Args>(args)...);
 
-			if (m_End == m_EndMax)
-				expand(1);
+			if (m_End == m_EndMax && !expand(1))
+				return;
             
             std::memmove(m_Begin + index + 1, m_Begin + index, (m_End - (m_Begin + index)) * sizeof(T));
             
@@ -454,20 +470,24 @@ namespace ktl
 		void clear() noexcept { m_End = m_Begin; }
 
 	private:
-		void expand(size_t n) noexcept
+		bool expand(size_t n) noexcept
 		{
 			size_t curCap = capacity();
 			size_t alSize = curCap + (std::max)(curCap / 2, n);
 
-			set_size(alSize);
+			return set_size(alSize);
 		}
 
-		void set_size(size_t n) noexcept
+		bool set_size(size_t n) noexcept
 		{
 			size_t curSize = (std::min)(size(), n);
 
 			T* alBlock = Traits::allocate(m_Alloc, n);
 
+			// Keep what is there if the allocator has no more memory
+			if (alBlock == nullptr)
+				return false;
+
 			if (m_Begin != nullptr)
 			{
 				std::memcpy(alBlock, m_Begin, curSize * sizeof(T));
@@ -478,6 +498,8 @@ namespace ktl
 			m_Begin = alBlock;
 			m_End = m_Begin + curSize;
 			m_EndMax = m_Begin + n;
+
+			return true;
 		}
 
 	private:
-- 
2.43.0


From d5f1d97c711a09679da56d0c2b8991cb178e7cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:40 +0000
Subject: [PATCH 20/34] fix: trivial_array must survive an allocator that
 refuses

---
 include/ktl/containers/trivial_array.h | 55 +++++++++++++++++++-------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/include/ktl/containers/trivial_array.h b/include/ktl/containers/trivial_array.h
index 77923c8..b6f2756 100644
--- a/include/ktl/containers/trivial_array.h
+++ b/include/ktl/containers/trivial_array.h
@@ -58,7 +58,7 @@ namespace ktl
 		explicit trivial_array(size_t n, const Alloc& allocator = Alloc()) :
 			m_Alloc(allocator),
 			m_Begin(Traits::allocate(m_Alloc, n)),
-			m_End(m_Begin + n) {}
+			m_End(m_Begin ? m_Begin + n : nullptr) {}
 
 		/**
 		 * @brief Construct the array with the given allocator, size and default value
@@ -69,9 +69,9 @@ namespace ktl
 		explicit trivial_array(size_t n, const T& value, const Alloc& allocator = Alloc()) :
 			m_Alloc(allocator),
 			m_Begin(Traits::allocate(m_Alloc, n)),
-			m_End(m_Begin + n)
+			m_End(m_Begin ? m_Begin + n : nullptr)
 		{
-			std::uninitialized_fill_n<T*, size_t>(m_Begin, n, value);
+			std::uninitialized_fill_n<T*, size_t>(m_Begin, size(), value);
 		}
 
 		/**
@@ -82,8 +82,12 @@ namespace ktl
 		trivial_array(std::initializer_list<T> initializer, const Alloc& allocator = Alloc()) :
 			m_Alloc(allocator),
 			m_Begin(Traits::allocate(m_Alloc, initializer.size())),
-			m_End(m_Begin + initializer.size())
+			m_End(m_Begin ? m_Begin + initializer.size() : nullptr)
 		{
+			// The memory may have been refused
+			if (m_Begin == nullptr)
+				return;
+
 			T* dst = m_Begin;
 			for (auto value : initializer)
 			{
@@ -101,18 +105,18 @@ namespace ktl
 		explicit trivial_array(const T* first, const T* last, const Alloc& allocator = Alloc()) :
 			m_Alloc(allocator),
 			m_Begin(Traits::allocate(m_Alloc, size_t(last - first))),
-			m_End(m_Begin + size_t(last - first))
+			m_End(m_Begin ? m_Begin + size_t(last - first) : nullptr)
 		{
-			size_t n = last - first;
-			std::memcpy(m_Begin, first, n * sizeof(T));
+			if (m_Begin != nullptr)
+				std::memcpy(m_Begin, first, size() * sizeof(T));
 		}
 
 		trivial_array(const trivial_array& other) noexcept :
 			m_Alloc(Traits::select_on_container_copy_construction(other.m_Alloc)),
 			m_Begin(Traits::allocate(m_Alloc, other.size())),
-			m_End(m_Begin + other.size())
+			m_End(m_Begin ? m_Begin + other.size() : nullptr)
 		{
-            if (other.m_Begin != nullptr)
+            if (m_Begin != nullptr && other.m_Begin != nullptr)
 			    std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
 		}
 
@@ -128,17 +132,21 @@ namespace ktl
 		trivial_array(const trivial_array& other, const Alloc& allocator) noexcept :
 			m_Alloc(allocator),
 			m_Begin(Traits::allocate(m_Alloc, other.size())),
-			m_End(m_Begin + other.size())
+			m_End(m_Begin ? m_Begin + other.size() : nullptr)
 		{
-            if (other.m_Begin != nullptr)
+            if (m_Begin != nullptr && other.m_Begin != nullptr)
 			    std::memcpy(m_Begin, other.m_Begin, other.size() * sizeof(T));
 		}
         
         trivial_array(trivial_array&& other, const Alloc& allocator) noexcept :
 			m_Alloc(allocator),
 			m_Begin(Traits::allocate(m_Alloc, other.size())),
-			m_End(m_Begin + other.size())
+			m_End(m_Begin ? m_Begin + other.size() : nullptr)
 		{
+            // The elements stay where they are if there is no memory to move them to
+            if (m_Begin == nullptr && !other.empty())
+                return;
+
             // Moving using a different allocator means we can't just move, we have to reallocate
             if (other.m_Begin != nullptr)
             {
@@ -171,10 +179,15 @@ namespace ktl
 
 			T* alBlock = Traits::allocate(m_Alloc, n);
 
+			// The array is left empty if there is no memory for the copy
+			if (alBlock == nullptr)
+				n = 0;
+
 			m_Begin = alBlock;
 			m_End = m_Begin + n;
 
-			std::memcpy(m_Begin, other.m_Begin, n * sizeof(T));
+			if (n > 0)
+				std::memcpy(m_Begin, other.m_Begin, n * sizeof(T));
 			return *this;
 		}
 
@@ -262,6 +275,7 @@ namespace ktl
 
 		/**
 		 * @brief Resizes the array to the given size.
+		 * @note Does nothing if the memory for it could not be allocated
 		 * @param n The size to resize to.
 		*/
 		void resize(size_t n)
@@ -271,9 +285,14 @@ namespace ktl
 				size_t curSize = size();
 				T* alBlock = Traits::allocate(m_Alloc, n);
 
+				// Keep what is there if the allocator has no more memory
+				if (alBlock == nullptr && n > 0)
+					return;
+
 				if (m_Begin != nullptr)
 				{
-					std::memcpy(alBlock, m_Begin, std::min(curSize, n) * sizeof(T));
+					if (alBlock != nullptr)
+						std::memcpy(alBlock, m_Begin, std::min(curSize, n) * sizeof(T));
 					Traits::deallocate(m_Alloc, m_Begin, curSize);
 				}
 
@@ -284,6 +303,7 @@ namespace ktl
 
 		/**
 		 * @brief Assigns the given values from @p first to @p last. It also resizes if the size doesn't match the number of elements.
+		 * @note Does nothing if the memory for it could not be allocated
 		 * @param first A pointer to the first element.
 		 * @param last A pointer one element past the last element.
 		*/
@@ -295,6 +315,10 @@ namespace ktl
 			{
 				T* alBlock = Traits::allocate(m_Alloc, n);
 
+				// Keep what is there if the allocator has no more memory
+				if (alBlock == nullptr && n > 0)
+					return;
+
 				if (m_Begin != nullptr)
 					Traits::deallocate(m_Alloc, m_Begin, size());
 
@@ -302,7 +326,8 @@ namespace ktl
 				m_End = m_Begin + n;
 			}
 
-			std::memcpy(m_Begin, first, n * sizeof(T));
+			if (n > 0)
+				std::memcpy(m_Begin, first, n * sizeof(T));
 		}
 
 	private:
-- 
2.43.0


From b1475b5b002d9fc17a2a2a70c33b53b23aba7d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:40 +0000
Subject: [PATCH 21/34] fix: binary_heap must survive an allocator that refuses

---
 include/ktl/containers/binary_heap.h | 68 ++++++++++++++++++++++++----
 1 file changed, 60 insertions(+), 8 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index e5bdec9..3a9e177 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -69,7 +69,12 @@ namespace ktl
             m_Comp(comp),
             m_Size(0),
             m_Capacity(capacity),
-            m_Begin(Traits::allocate(m_Alloc, capacity)) {}
+            m_Begin(Traits::allocate(m_Alloc, capacity))
+        {
+            // The memory may have been refused
+            if (!m_Begin)
+                m_Capacity = 0;
+        }
 
         /**
          * @brief Construct the binary heap with the given allocator, comparator and an initial capacity
@@ -82,7 +87,12 @@ namespace ktl
             m_Comp(comp),
             m_Size(0),
             m_Capacity(capacity),
-            m_Begin(Traits::allocate(m_Alloc, capacity)) {}
+            m_Begin(Traits::allocate(m_Alloc, capacity))
+        {
+            // The memory may have been refused
+            if (!m_Begin)
+                m_Capacity = 0;
+        }
 
         /**
          * @brief Construct the binary heap with the given comparator and an initial set of values
@@ -96,6 +106,13 @@ namespace ktl
             m_Capacity(initializer.size()),
             m_Begin(Traits::allocate(m_Alloc, initializer.size()))
         {
+            // The memory may have been refused
+            if (!m_Begin)
+            {
+                m_Capacity = 0;
+                return;
+            }
+
             for (auto value : initializer)
                 insert(value);
         }
@@ -113,6 +130,13 @@ namespace ktl
             m_Capacity(initializer.size()),
             m_Begin(Traits::allocate(m_Alloc, initializer.size()))
         {
+            // The memory may have been refused
+            if (!m_Begin)
+            {
+                m_Capacity = 0;
+                return;
+            }
+
             for (auto value : initializer)
                 insert(value);
         }
@@ -124,6 +148,10 @@ namespace ktl
             m_Capacity(other.m_Size),
             m_Begin(Traits::allocate(m_Alloc, other.m_Size))
         {
+            // The memory may have been refused
+            if (!m_Begin)
+                m_Size = m_Capacity = 0;
+
             for (size_t i = 0; i < m_Size; i++)
                 Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
         }
@@ -147,17 +175,30 @@ namespace ktl
             m_Capacity(other.m_Size),
             m_Begin(Traits::allocate(m_Alloc, other.m_Size))
         {
+            // The memory may have been refused
+            if (!m_Begin)
+                m_Size = m_Capacity = 0;
+
             for (size_t i = 0; i < m_Size; i++)
                 Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
         }
 
         binary_heap(binary_heap&& other, const Alloc& allocator) noexcept(std::is_nothrow_move_constructible_v<T>) :
             m_Alloc(allocator),
-            m_Comp(std::move(other.m_Comp)),
+            m_Comp(other.m_Comp),
             m_Size(other.m_Size),
             m_Capacity(other.m_Size),
             m_Begin(Traits::allocate(m_Alloc, other.m_Size))
         {
+            // The elements stay where they are if there is no memory to move them to
+            if (!m_Begin)
+            {
+                m_Size = m_Capacity = 0;
+
+                if (!other.empty())
+                    return;
+            }
+
             // Moving using a different allocator means we can't just move, we have to reallocate
             for (size_t i = 0; i < m_Size; i++)
             {
@@ -204,6 +245,10 @@ namespace ktl
             m_Capacity = other.m_Size;
             m_Begin = Traits::allocate(m_Alloc, m_Capacity);
 
+            // The heap is left empty if there is no memory for the copy
+            if (!m_Begin)
+                m_Size = m_Capacity = 0;
+
             // Copy construct elements
             for (size_t i = 0; i < m_Size; i++)
                 Traits::construct(m_Alloc, m_Begin + i, other.m_Begin[i]);
@@ -298,7 +343,7 @@ namespace ktl
          * @brief Inserts a new element into the heap via perfect forwarding.
          * @tparam V The type to insert.
          * @param value The element to insert into the heap.
-         * @return An iterator to the element that was added.
+         * @return An iterator to the element that was added or end() if there was no memory for it.
         */
         template<typename V>
         iterator insert(V&& value) noexcept
@@ -307,7 +352,8 @@ namespace ktl
             {
                 // The value may be an element of this heap
                 T element(std::forward<V>(value));
-                expand(1);
+                if (!expand(1))
+                    return end();
                 Traits::construct(m_Alloc, m_Begin + m_Size, std::move(element));
             }
             else
@@ -378,20 +424,24 @@ namespace ktl
         }
 
     private:
-        void expand(size_t n) noexcept
+        bool expand(size_t n) noexcept
         {
             size_t curCap = capacity();
             size_t alSize = curCap + (std::max)(curCap, n);
 
-            set_size(alSize);
+            return set_size(alSize);
         }
 
-        void set_size(size_t n) noexcept
+        bool set_size(size_t n) noexcept
         {
             size_t curSize = (std::min)(size(), n);
 
             T* newData = Traits::allocate(m_Alloc, n);
 
+            // Keep what is there if the allocator has no more memory
+            if (!newData)
+                return false;
+
             if (m_Begin)
             {
                 // Move construct elements
@@ -409,6 +459,8 @@ namespace ktl
             m_Size = curSize;
             m_Capacity = n;
             m_Begin = newData;
+
+            return true;
         }
 
         constexpr size_t parent(size_t index) const noexcept
-- 
2.43.0


From fda7700ba62230d9396a6ee90d8f10668eae7dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 22/34] fix: an overflow allocator that was moved from must not
 report what moved along

---
 include/ktl/allocators/overflow.h | 35 +++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 5d6e43c..12fb69d 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -27,6 +27,29 @@ namespace ktl
 		static constexpr unsigned char OVERFLOW_TEST = 0b10100101;
 		static constexpr size_t OVERFLOW_SIZE = 64;
 
+		// Moves along with the allocator, as the memory and objects it accounts for do
+		struct account
+		{
+			int64_t Value;
+
+			account(int64_t value) noexcept :
+				Value(value) {}
+
+			account(const account&) noexcept = default;
+
+			account(account&& other) noexcept :
+				Value(other.Value)
+			{
+				other.Value = 0;
+			}
+
+			void operator+=(int64_t n) noexcept { Value += n; }
+
+			void operator-=(int64_t n) noexcept { Value -= n; }
+
+			operator int64_t() const noexcept { return Value; }
+		};
+
 	public:
 		/**
 		 * @brief Construct the allocator with a reference to a stream object
@@ -62,7 +85,7 @@ namespace ktl
 			{
 				m_Stream << "--------MEMORY LEAK DETECTED--------\nAllocator destroyed while having:\n";
 				if (m_Allocs > 0)
-					m_Stream << " Allocated memory (" << m_Allocs << " bytes)\n";
+					m_Stream << " Allocated memory (" << +m_Allocs << " bytes)\n";
 				else
 					m_Stream << " Too many frees (" << -m_Allocs << " bytes)\n";
 			}
@@ -71,7 +94,7 @@ namespace ktl
 			{
 				m_Stream << "--------POSSIBLE LOGIC ERROR DETECTED--------\nAllocator destroyed while having:\n";
 				if (m_Constructs > 0)
-					m_Stream << " Too many constructor calls (" << m_Constructs << ")\n";
+					m_Stream << " Too many constructor calls (" << +m_Constructs << ")\n";
 				else
 					m_Stream << " Too many destructor calls (" << -m_Constructs << ")\n";
 			}
@@ -185,7 +208,7 @@ namespace ktl
 			(detail::has_construct_v<Alloc, T*, Args...> && detail::has_nothrow_construct_v<Alloc, T*, Args...>) ||
 			std::is_nothrow_constructible_v<T, Args...>)
 		{
-			m_Constructs++;
+			m_Constructs += 1;
 
 			if constexpr (detail::has_construct_v<Alloc, T*, Args...>)
 				m_Alloc.construct(p, std::forward<Args>(args)...);
@@ -203,7 +226,7 @@ namespace ktl
 			(detail::has_destroy_v<Alloc, T*>&& detail::has_nothrow_destroy_v<Alloc, T*>) ||
 			std::is_nothrow_destructible_v<T>)
 		{
-			m_Constructs--;
+			m_Constructs -= 1;
 
 			if constexpr (detail::has_destroy_v<Alloc, T*>)
 				m_Alloc.destroy(p);
@@ -280,7 +303,7 @@ namespace ktl
 	private:
 		Stream& m_Stream;
 		KTL_EMPTY_BASE Alloc m_Alloc;
-		int64_t m_Allocs;
-		int64_t m_Constructs;
+		account m_Allocs;
+		account m_Constructs;
 	};
 }
\ No newline at end of file
-- 
2.43.0


From 196c9a1ccb52952c035557c4966f9931a71a0176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 23/34] fix: overflow must count constructions exactly when
 threads share it

---
 include/ktl/allocators/overflow.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 12fb69d..8c1fd28 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -6,6 +6,7 @@
 #include "overflow_fwd.h"
 #include "type_allocator.h"
 
+#include <atomic>
 #include <cstring>
 #include <memory>
 #include <ostream>
@@ -28,26 +29,25 @@ namespace ktl
 		static constexpr size_t OVERFLOW_SIZE = 64;
 
 		// Moves along with the allocator, as the memory and objects it accounts for do
+		// Is atomic, since objects are constructed and destroyed outside the lock of threaded
 		struct account
 		{
-			int64_t Value;
+			std::atomic<int64_t> Value;
 
 			account(int64_t value) noexcept :
 				Value(value) {}
 
-			account(const account&) noexcept = default;
+			account(const account& other) noexcept :
+				Value(other.Value.load(std::memory_order_relaxed)) {}
 
 			account(account&& other) noexcept :
-				Value(other.Value)
-			{
-				other.Value = 0;
-			}
+				Value(other.Value.exchange(0, std::memory_order_relaxed)) {}
 
-			void operator+=(int64_t n) noexcept { Value += n; }
+			void operator+=(int64_t n) noexcept { Value.fetch_add(n, std::memory_order_relaxed); }
 
-			void operator-=(int64_t n) noexcept { Value -= n; }
+			void operator-=(int64_t n) noexcept { Value.fetch_sub(n, std::memory_order_relaxed); }
 
-			operator int64_t() const noexcept { return Value; }
+			operator int64_t() const noexcept { return Value.load(std::memory_order_relaxed); }
 		};
 
 	public:
-- 
2.43.0


From 7432da95ff77e125d8afc484f57d8c3d94a0615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:01 +0000
Subject: [PATCH 24/34] fix: posix_memalign takes the alignment before the size

---
 include/ktl/utility/aligned_malloc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index 1232ce3..2aa7b22 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -53,7 +53,7 @@ namespace ktl::detail
         return _mm_malloc(size, alignment);
 #elif KTL_HAS_POSIX_MEMALIGN
         void* res;
-        const int failed = posix_memalign(&res, size, alignment);
+        const int failed = posix_memalign(&res, alignment, size);
         if (failed) res = nullptr;
         return res;
 #elif defined(_MSC_VER)
-- 
2.43.0


From 6dbb802198f9af9742ae489886f06ab9f4ca1ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:54 +0000
Subject: [PATCH 25/34] fix: aligned_malloc must refuse sizes that wrap around
 when padded

---
 include/ktl/utility/aligned_malloc.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index 2aa7b22..28ca3a0 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -60,6 +60,8 @@ namespace ktl::detail
         return _aligned_malloc(size, alignment);
 #else
         void* res = nullptr;
+        if (size + alignment < size) // The padded size wraps around
+            return nullptr;
         void* ptr = malloc(size + alignment);
         if (ptr != nullptr)
         {
-- 
2.43.0


From ca109ab5265b8f2e287f9149bc7916b3cda3070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:20 +0000
Subject: [PATCH 26/34] fix: trivial_buffer must keep its elements aligned and
 be readable through at(), const access and iterators

---
 include/ktl/containers/trivial_buffer.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/ktl/containers/trivial_buffer.h b/include/ktl/containers/trivial_buffer.h
index 33ea2b9..c163ac3 100644
--- a/include/ktl/containers/trivial_buffer.h
+++ b/include/ktl/containers/trivial_buffer.h
@@ -31,14 +31,14 @@ namespace ktl
 
 		explicit trivial_buffer(const T& value)
 		{
-			std::uninitialized_fill_n<T*, size_t>(reinterpret_cast<T*>(m_Data), Size, value);
+			std::uninitialized_fill_n<T*, size_t>(m_Data, Size, value);
 		}
 
 		trivial_buffer(std::initializer_list<T> initializer)
 		{
 			KTL_ASSERT(initializer.size() <= Size);
 
-			T* dst = reinterpret_cast<T*>(m_Data);
+			T* dst = m_Data;
 			for (auto value : initializer)
 			{
 				*dst = value;
@@ -81,7 +81,7 @@ namespace ktl
 		 * @param index The index of the element in the buffer.
 		 * @return A reference to the element at @p index.
 		*/
-		T& operator[](size_t index) noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+		T& operator[](size_t index) noexcept { return m_Data[index % Size]; }
 
 		/**
 		 * @brief Returns a const reference to the element at @p index, rolling.
@@ -89,7 +89,7 @@ namespace ktl
 		 * @param index The index of the element in the buffer.
 		 * @return A reference to the element at @p index.
 		*/
-		const T& operator[](size_t index) const noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+		const T& operator[](size_t index) const noexcept { return m_Data[index % Size]; }
 
 
 		iterator begin() noexcept { return m_Data; }
@@ -133,7 +133,15 @@ namespace ktl
 		 * @param index The index of the element in the buffer.
 		 * @return A reference to the element at @p index.
 		*/
-		T& at(size_t index) const noexcept { return reinterpret_cast<T*>(m_Data)[index % Size]; }
+		T& at(size_t index) noexcept { return m_Data[index % Size]; }
+
+		/**
+		 * @brief Returns a const reference to the element at @p index, rolling.
+		 * @note An index higher than size() will roll back to the start of the buffer.
+		 * @param index The index of the element in the buffer.
+		 * @return A reference to the element at @p index.
+		*/
+		const T& at(size_t index) const noexcept { return m_Data[index % Size]; }
 
 
 		/**
@@ -149,6 +157,6 @@ namespace ktl
 		}
 
 	private:
-		uint8_t m_Data[Size * sizeof(T)];
+		T m_Data[Size];
 	};
 }
\ No newline at end of file
-- 
2.43.0


From fd65cff01900c7c8039e1cad81e7da958d4348bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:48 +0000
Subject: [PATCH 27/34] fix: binary_heap::insert must not use up its argument
 when the allocator refuses

---
 include/ktl/containers/binary_heap.h | 33 ++++++++++++++++++----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/include/ktl/containers/binary_heap.h b/include/ktl/containers/binary_heap.h
index 3a9e177..549fcef 100644
--- a/include/ktl/containers/binary_heap.h
+++ b/include/ktl/containers/binary_heap.h
@@ -350,11 +350,18 @@ namespace ktl
         {
             if (m_Size == m_Capacity)
             {
-                // The value may be an element of this heap
-                T element(std::forward<V>(value));
-                if (!expand(1))
+                size_t alSize = expanded_size(1);
+
+                T* newData = Traits::allocate(m_Alloc, alSize);
+
+                // The value is only used once there is memory for it
+                if (!newData)
                     return end();
-                Traits::construct(m_Alloc, m_Begin + m_Size, std::move(element));
+
+                // The value may be an element of this heap, so use it before they move
+                Traits::construct(m_Alloc, newData + m_Size, std::forward<V>(value));
+
+                move_elements(newData, alSize);
             }
             else
                 Traits::construct(m_Alloc, m_Begin + m_Size, std::forward<V>(value));
@@ -424,24 +431,30 @@ namespace ktl
         }
 
     private:
-        bool expand(size_t n) noexcept
+        size_t expanded_size(size_t n) const noexcept
         {
             size_t curCap = capacity();
-            size_t alSize = curCap + (std::max)(curCap, n);
 
-            return set_size(alSize);
+            return curCap + (std::max)(curCap, n);
         }
 
         bool set_size(size_t n) noexcept
         {
-            size_t curSize = (std::min)(size(), n);
-
             T* newData = Traits::allocate(m_Alloc, n);
 
             // Keep what is there if the allocator has no more memory
             if (!newData)
                 return false;
 
+            move_elements(newData, n);
+
+            return true;
+        }
+
+        void move_elements(T* newData, size_t n) noexcept
+        {
+            size_t curSize = (std::min)(size(), n);
+
             if (m_Begin)
             {
                 // Move construct elements
@@ -459,8 +472,6 @@ namespace ktl
             m_Size = curSize;
             m_Capacity = n;
             m_Begin = newData;
-
-            return true;
         }
 
         constexpr size_t parent(size_t index) const noexcept
-- 
2.43.0


From 80e8afa085c82e528eb6bbe23d2b6cbd022e1e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:04 +0000
Subject: [PATCH 28/34] fix: overflow counted objects whose constructor threw
 as constructed

---
 include/ktl/allocators/overflow.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 8c1fd28..83ec72b 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -208,12 +208,13 @@ namespace ktl
 			(detail::has_construct_v<Alloc, T*, Args...> && detail::has_nothrow_construct_v<Alloc, T*, Args...>) ||
 			std::is_nothrow_constructible_v<T, Args...>)
 		{
-			m_Constructs += 1;
-
 			if constexpr (detail::has_construct_v<Alloc, T*, Args...>)
 				m_Alloc.construct(p, std::forward<Args>(args)...);
 			else
 				::new(p) T(std::forward<Args>(args)...);
+
+			// An object whose constructor throws is never destroyed
+			m_Constructs += 1;
 		}
 
 		/**
-- 
2.43.0


From e361bb0c795d24e70d59b778ec7b9c7f9bf7a351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:04 +0000
Subject: [PATCH 29/34] fix: overflow counted deallocations and destructions
 that ended with an exception

---
 include/ktl/allocators/overflow.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 83ec72b..7cb3106 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -156,8 +156,6 @@ namespace ktl
 		{
 			KTL_ASSERT(p != nullptr);
 
-			m_Allocs -= n;
-
 			if (p)
 			{
 				unsigned char* ptr = reinterpret_cast<unsigned char*>(p);
@@ -192,6 +190,9 @@ namespace ktl
 				size_type size = n + OVERFLOW_SIZE * 2;
 				m_Alloc.deallocate(ptr - OVERFLOW_SIZE, size);
 			}
+
+			// Memory that could not be deallocated due to an exception is still there
+			m_Allocs -= n;
 		}
 #pragma endregion
 
@@ -227,12 +228,12 @@ namespace ktl
 			(detail::has_destroy_v<Alloc, T*>&& detail::has_nothrow_destroy_v<Alloc, T*>) ||
 			std::is_nothrow_destructible_v<T>)
 		{
-			m_Constructs -= 1;
-
 			if constexpr (detail::has_destroy_v<Alloc, T*>)
 				m_Alloc.destroy(p);
 			else
 				p->~T();
+
+			m_Constructs -= 1;
 		}
 #pragma endregion
 
-- 
2.43.0


From f8d1fd9e51a2a6cd1df17516f215788ad80e62da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:04 +0000
Subject: [PATCH 30/34] fix: overflow terminated when the construct or destroy
 of its allocator throws

---
 include/ktl/allocators/overflow.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ktl/allocators/overflow.h b/include/ktl/allocators/overflow.h
index 7cb3106..960a0e6 100644
--- a/include/ktl/allocators/overflow.h
+++ b/include/ktl/allocators/overflow.h
@@ -206,7 +206,8 @@ namespace ktl
 		*/
 		template<typename T, typename... Args>
 		void construct(T* p, Args&&... args) noexcept(
-			(detail::has_construct_v<Alloc, T*, Args...> && detail::has_nothrow_construct_v<Alloc, T*, Args...>) ||
+			detail::has_construct_v<Alloc, T*, Args...> ?
+			detail::has_nothrow_construct_v<Alloc, T*, Args...> :
 			std::is_nothrow_constructible_v<T, Args...>)
 		{
 			if constexpr (detail::has_construct_v<Alloc, T*, Args...>)
@@ -225,7 +226,8 @@ namespace ktl
 		*/
 		template<typename T>
 		void destroy(T* p) noexcept(
-			(detail::has_destroy_v<Alloc, T*>&& detail::has_nothrow_destroy_v<Alloc, T*>) ||
+			detail::has_destroy_v<Alloc, T*> ?
+			detail::has_nothrow_destroy_v<Alloc, T*> :
 			std::is_nothrow_destructible_v<T>)
 		{
 			if constexpr (detail::has_destroy_v<Alloc, T*>)
-- 
2.43.0


From 333ec706f5515376851886b4cd07b19b779460c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:04 +0000
Subject: [PATCH 31/34] fix: aligned_new leaked its memory when the constructor
 throws

---
 include/ktl/utility/aligned_malloc.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ktl/utility/aligned_malloc.h b/include/ktl/utility/aligned_malloc.h
index 28ca3a0..c4f9597 100644
--- a/include/ktl/utility/aligned_malloc.h
+++ b/include/ktl/utility/aligned_malloc.h
@@ -92,9 +92,12 @@ namespace ktl::detail
     T* aligned_new(size_t alignment, Args&&... args)
         noexcept(noexcept(T(std::declval<Args>()...)))
     {
-        T* p = static_cast<T*>(aligned_malloc(sizeof(T), alignment));
-        if (p != nullptr)
-            ::new(p) T(std::forward<Args>(args)...);
+        // The memory is given back if the constructor throws
+        std::unique_ptr<void, decltype(&aligned_free)> memory(aligned_malloc(sizeof(T), alignment), &aligned_free);
+        if (!memory)
+            return nullptr;
+        T* p = ::new(memory.get()) T(std::forward<Args>(args)...);
+        memory.release();
         return p;
     }
 
-- 
2.43.0


From b99612ef457ffa403b6fd5b73252738708feb74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:04 +0000
Subject: [PATCH 32/34] fix: type_allocator terminated when the constructor of
 its allocator throws

---
 include/ktl/allocators/type_allocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/allocators/type_allocator.h b/include/ktl/allocators/type_allocator.h
index 48f74e1..3a0abaf 100644
--- a/include/ktl/allocators/type_allocator.h
+++ b/include/ktl/allocators/type_allocator.h
@@ -54,7 +54,7 @@ namespace ktl
 			typename = std::enable_if_t<
 			std::is_constructible_v<Alloc, Args...>>>
 		explicit type_allocator(Args&&... alloc)
-			noexcept(std::is_nothrow_constructible_v<T, Args...>) :
+			noexcept(std::is_nothrow_constructible_v<Alloc, Args...>) :
 			m_Alloc(std::forward<Args>(alloc)...) {}
 
 		type_allocator(const type_allocator&) = default;
-- 
2.43.0


From b7450391a99b9266e3aada94e6cc7760eea29771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:04 +0000
Subject: [PATCH 33/34] fix: cascading::max_size terminated when an allocator
 cannot be created

---
 include/ktl/allocators/cascading.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ktl/allocators/cascading.h b/include/ktl/allocators/cascading.h
index 78c00b7..4c802c3 100644
--- a/include/ktl/allocators/cascading.h
+++ b/include/ktl/allocators/cascading.h
@@ -251,7 +251,7 @@ namespace ktl
 		template<typename A = Alloc>
 		typename std::enable_if<detail::has_max_size_v<A>, size_type>::type
 		max_size() const
-			noexcept(detail::has_nothrow_max_size_v<A>)
+			noexcept(std::is_nothrow_default_constructible_v<A> && detail::has_nothrow_max_size_v<A>)
 		{
 			// No allocator has been created until the first allocation
 			if (!m_Node)
-- 
2.43.0


From f038e5d5eac832da4a499822a40991b46b7e11a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:04 +0000
Subject: [PATCH 34/34] fix: fallback and segragator terminated when the owns
 of their primary throws

---
 include/ktl/allocators/fallback.h   | 4 +++-
 include/ktl/allocators/segragator.h | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ktl/allocators/fallback.h b/include/ktl/allocators/fallback.h
index 181af7b..ecbc29d 100644
--- a/include/ktl/allocators/fallback.h
+++ b/include/ktl/allocators/fallback.h
@@ -107,7 +107,7 @@ namespace ktl
 		}
 
 		void deallocate(void* p, size_t n)
-			noexcept(detail::has_nothrow_deallocate_v<P>&& detail::has_nothrow_deallocate_v<F>)
+			noexcept(detail::has_nothrow_owns_v<P> && detail::has_nothrow_deallocate_v<P> && detail::has_nothrow_deallocate_v<F>)
 		{
 			if (m_Primary.owns(p))
 			{
@@ -123,6 +123,7 @@ namespace ktl
 		template<typename T, typename... Args>
 		typename std::enable_if<detail::has_construct_v<P, T*, Args...> || detail::has_construct_v<F, T*, Args...>, void>::type
 		construct(T* p, Args&&... args) noexcept(
+			detail::has_nothrow_owns_v<P> &&
 			(!detail::has_construct_v<P, T*, Args...> || detail::has_nothrow_construct_v<P, T*, Args...>) &&
 			(!detail::has_construct_v<F, T*, Args...> || detail::has_nothrow_construct_v<F, T*, Args...>) &&
 			std::is_nothrow_constructible_v<T, Args...>)
@@ -153,6 +154,7 @@ namespace ktl
 		template<typename T>
 		typename std::enable_if<detail::has_destroy_v<P, T*> || detail::has_destroy_v<F, T*>, void>::type
 		destroy(T* p) noexcept(
+			detail::has_nothrow_owns_v<P> &&
 			(!detail::has_destroy_v<P, T*> || detail::has_nothrow_destroy_v<P, T*>) &&
 			(!detail::has_destroy_v<F, T*> || detail::has_nothrow_destroy_v<F, T*>) &&
 			std::is_nothrow_destructible_v<T>)
diff --git a/include/ktl/allocators/segragator.h b/include/ktl/allocators/segragator.h
index 82c124c..433b5f9 100644
--- a/include/ktl/allocators/segragator.h
+++ b/include/ktl/allocators/segragator.h
@@ -117,6 +117,7 @@ namespace ktl
 		template<typename T, typename... Args>
 		typename std::enable_if<detail::has_construct_v<P, T*, Args...> || detail::has_construct_v<F, T*, Args...>, void>::type
 		construct(T* p, Args&&... args) noexcept(
+			detail::has_nothrow_owns_v<P> &&
 			(!detail::has_construct_v<P, T*, Args...> || detail::has_nothrow_construct_v<P, T*, Args...>) &&
 			(!detail::has_construct_v<F, T*, Args...> || detail::has_nothrow_construct_v<F, T*, Args...>) &&
 			std::is_nothrow_constructible_v<T, Args...>)
@@ -147,6 +148,7 @@ namespace ktl
 		template<typename T>
 		typename std::enable_if<detail::has_destroy_v<P, T*> || detail::has_destroy_v<F, T*>, void>::type
 		destroy(T* p) noexcept(
+			detail::has_nothrow_owns_v<P> &&
 			(!detail::has_destroy_v<P, T*> || detail::has_nothrow_destroy_v<P, T*>) &&
 			(!detail::has_destroy_v<F, T*> || detail::has_nothrow_destroy_v<F, T*>) &&
 			std::is_nothrow_destructible_v<T>)
-- 
2.43.0

