From fc094b5f4a583fa6a1880a50114765e88078870f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:50 +0000
Subject: [PATCH 1/7] fix: do not move from a coroutine-function passed as
 lvalue (C++11)

detail::wrapper moved from its constructor arguments unconditionally, so
that in C++11 mode constructing a coroutine from an lvalue function object
emptied the caller's object. Forward instead, as the C++14 path does.
---
 include/boost/coroutine2/detail/wrap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/coroutine2/detail/wrap.hpp b/include/boost/coroutine2/detail/wrap.hpp
index 9c32edf..4de5ebc 100644
--- a/include/boost/coroutine2/detail/wrap.hpp
+++ b/include/boost/coroutine2/detail/wrap.hpp
@@ -9,6 +9,7 @@
 
 #include <functional>
 #include <type_traits>
+#include <utility>
 
 #include <boost/config.hpp>
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
@@ -34,8 +35,8 @@ private:
 
 public:
     wrapper( Fn1 && fn1, Fn2 && fn2) :
-        fn1_( std::move( fn1) ),
-        fn2_( std::move( fn2) ) {
+        fn1_( std::forward< Fn1 >( fn1) ),
+        fn2_( std::forward< Fn2 >( fn2) ) {
     }
 
     wrapper( wrapper const&) = delete;
-- 
2.43.0


From ba59d14835cb931d6e4b2865a7656e7716038d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:08 +0000
Subject: [PATCH 2/7] fix: do not destroy a transferred value twice if copying
 its successor throws

control_block::set() destroyed the stored value, but left bvalid set while
copying/moving the new one. If that throws, the dead value was destroyed
again by the next transfer or by the destructor.
---
 include/boost/coroutine2/detail/pull_control_block_cc.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/coroutine2/detail/pull_control_block_cc.ipp b/include/boost/coroutine2/detail/pull_control_block_cc.ipp
index f511e29..f8fd081 100644
--- a/include/boost/coroutine2/detail/pull_control_block_cc.ipp
+++ b/include/boost/coroutine2/detail/pull_control_block_cc.ipp
@@ -155,6 +155,8 @@ void
 pull_coroutine< T >::control_block::set( T const& t) {
     // destroy data if set
     if ( bvalid) {
+        // the copy/move below might throw
+        bvalid = false;
         reinterpret_cast< T * >( std::addressof( storage) )->~T();
     }
     ::new ( static_cast< void * >( std::addressof( storage) ) ) T( t);
@@ -166,6 +168,8 @@ void
 pull_coroutine< T >::control_block::set( T && t) {
     // destroy data if set
     if ( bvalid) {
+        // the copy/move below might throw
+        bvalid = false;
         reinterpret_cast< T * >( std::addressof( storage) )->~T();
     }
     ::new ( static_cast< void * >( std::addressof( storage) ) ) T( std::move( t) );
-- 
2.43.0


From 424c101e40f7ac3c3597332a0f49acf75939abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:08 +0000
Subject: [PATCH 3/7] fix: align the control block for over-aligned transferred
 types

The control block stores the transferred value, but was always placed at a
64 byte boundary, so that values of types with an alignment greater than 64
were misaligned.
---
 include/boost/coroutine2/detail/create_control_block.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/coroutine2/detail/create_control_block.ipp b/include/boost/coroutine2/detail/create_control_block.ipp
index 127ea84..0e7fa23 100644
--- a/include/boost/coroutine2/detail/create_control_block.ipp
+++ b/include/boost/coroutine2/detail/create_control_block.ipp
@@ -35,7 +35,8 @@ ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
     void * sp = static_cast< char * >( sctx.sp) - sizeof( ControlBlock);
     const std::size_t size = sctx.size - sizeof( ControlBlock);
 #else
-    constexpr std::size_t func_alignment = 64; // alignof( ControlBlock);
+    // at least a cache line, more if the transferred type is over-aligned
+    constexpr std::size_t func_alignment = alignof( ControlBlock) < 64 ? 64 : alignof( ControlBlock);
     constexpr std::size_t func_size = sizeof( ControlBlock);
     // reserve space on stack
     void * sp = static_cast< char * >( sctx.sp) - func_size - func_alignment;
-- 
2.43.0


From 0afb083ee66efd20314b42260ea7db66c2124fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:08 +0000
Subject: [PATCH 4/7] fix: do not leak the stack if copying the
 coroutine-function throws

The stack was allocated before coroutine-fn was copied into the coroutine,
nobody released it if the copy threw. Copy coroutine-fn first.
---
 include/boost/coroutine2/detail/create_control_block.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/coroutine2/detail/create_control_block.ipp b/include/boost/coroutine2/detail/create_control_block.ipp
index 0e7fa23..6590bbe 100644
--- a/include/boost/coroutine2/detail/create_control_block.ipp
+++ b/include/boost/coroutine2/detail/create_control_block.ipp
@@ -9,6 +9,7 @@
 
 #include <cstddef>
 #include <memory>
+#include <type_traits>
 #include <utility>
 
 #include <boost/assert.hpp>
@@ -29,6 +30,9 @@ namespace detail {
 
 template< typename ControlBlock, typename StackAllocator, typename Fn >
 ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
+    // take over coroutine-fn before the stack gets allocated,
+    // otherwise the stack would be leaked if copying fn throws
+    typename std::decay< Fn >::type fn_( std::forward< Fn >( fn) );
     auto sctx = salloc.allocate();
     // reserve space for control structure
 #if defined(BOOST_NO_CXX11_CONSTEXPR) || defined(BOOST_NO_CXX11_STD_ALIGN)
@@ -49,7 +53,7 @@ ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
 #endif
     // placment new for control structure on coroutine stack
     return new ( sp) ControlBlock{ context::preallocated( sp, size, sctx),
-                                   std::forward< StackAllocator >( salloc), std::forward< Fn >( fn) };
+                                   std::forward< StackAllocator >( salloc), std::move( fn_) };
 }
 
 }}}
-- 
2.43.0


From b1b4ccc91ec2c429beb97844336bcc54e12db0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:23 +0000
Subject: [PATCH 5/7] fix: move assignment destroys the assigned-to coroutine

operator=( push_coroutine &&)/operator=( pull_coroutine &&) swapped, so that
the moved-from object kept the old coroutine alive and was still valid. The
documentation says: destroys the internal data of *this and moves the
internal data of other to *this, other becomes not-a-coroutine.
---
 include/boost/coroutine2/detail/pull_coroutine.hpp | 10 +++++++---
 include/boost/coroutine2/detail/push_coroutine.hpp | 13 +++++++------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/boost/coroutine2/detail/pull_coroutine.hpp b/include/boost/coroutine2/detail/pull_coroutine.hpp
index 767a388..385ed74 100644
--- a/include/boost/coroutine2/detail/pull_coroutine.hpp
+++ b/include/boost/coroutine2/detail/pull_coroutine.hpp
@@ -9,6 +9,7 @@
 
 #include <iterator>
 #include <type_traits>
+#include <utility>
 
 #include <boost/assert.hpp>
 #include <boost/config.hpp>
@@ -55,7 +56,8 @@ public:
     pull_coroutine( pull_coroutine &&) noexcept;
 
     pull_coroutine & operator=( pull_coroutine && other) noexcept {
-        std::swap( cb_, other.cb_);
+        pull_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -166,7 +168,8 @@ public:
     pull_coroutine( pull_coroutine &&) noexcept;
 
     pull_coroutine & operator=( pull_coroutine && other) noexcept {
-        std::swap( cb_, other.cb_);
+        pull_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -275,7 +278,8 @@ public:
     pull_coroutine( pull_coroutine &&) noexcept;
 
     pull_coroutine & operator=( pull_coroutine && other) noexcept {
-        std::swap( cb_, other.cb_);
+        pull_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
diff --git a/include/boost/coroutine2/detail/push_coroutine.hpp b/include/boost/coroutine2/detail/push_coroutine.hpp
index 4b5ba5c..7c31f5b 100644
--- a/include/boost/coroutine2/detail/push_coroutine.hpp
+++ b/include/boost/coroutine2/detail/push_coroutine.hpp
@@ -9,6 +9,7 @@
 
 #include <iterator>
 #include <type_traits>
+#include <utility>
 
 #include <boost/assert.hpp>
 #include <boost/config.hpp>
@@ -53,8 +54,8 @@ public:
     push_coroutine( push_coroutine &&) noexcept;
 
     push_coroutine & operator=( push_coroutine && other) noexcept {
-        if ( this == & other) return * this;
-        std::swap( cb_, other.cb_);
+        push_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -138,8 +139,8 @@ public:
     push_coroutine( push_coroutine &&) noexcept;
 
     push_coroutine & operator=( push_coroutine && other) noexcept {
-        if ( this == & other) return * this;
-        std::swap( cb_, other.cb_);
+        push_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -221,8 +222,8 @@ public:
     push_coroutine( push_coroutine &&) noexcept;
 
     push_coroutine & operator=( push_coroutine && other) noexcept {
-        if ( this == & other) return * this;
-        std::swap( cb_, other.cb_);
+        push_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
-- 
2.43.0


From ab7d98d3a58984058e90511a06f9084144227571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:23 +0000
Subject: [PATCH 6/7] fix: begin() of a completed push_coroutine equals end()

The documentation guarantees for begin( push_type &) that the iterator
compares equal to end() if the coroutine is complete; as pull_coroutine's
iterator does.
---
 include/boost/coroutine2/detail/push_coroutine.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/coroutine2/detail/push_coroutine.hpp b/include/boost/coroutine2/detail/push_coroutine.hpp
index 7c31f5b..97695f2 100644
--- a/include/boost/coroutine2/detail/push_coroutine.hpp
+++ b/include/boost/coroutine2/detail/push_coroutine.hpp
@@ -82,6 +82,9 @@ public:
 
         explicit iterator( push_coroutine< T > * c) noexcept :
             c_{ c } {
+            if ( ! ( * c_) ) {
+                c_ = nullptr;
+            }
         }
 
         iterator & operator=( T t) {
@@ -165,6 +168,9 @@ public:
 
         explicit iterator( push_coroutine< T & > * c) noexcept :
             c_{ c } {
+            if ( ! ( * c_) ) {
+                c_ = nullptr;
+            }
         }
 
         iterator & operator=( T & t) {
-- 
2.43.0


From ed349a9733dd8cb27fa6dfd8876e103eb7ffa3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:46 +0000
Subject: [PATCH 7/7] fix: move the value assigned through an output iterator
 instead of copying it

push_type::iterator::operator=(T) pushed its by-value parameter as an
lvalue, so that an assigned rvalue was copied and move-only types could
not be used with push iterators at all.
---
 include/boost/coroutine2/detail/push_coroutine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/coroutine2/detail/push_coroutine.hpp b/include/boost/coroutine2/detail/push_coroutine.hpp
index 97695f2..a06c79f 100644
--- a/include/boost/coroutine2/detail/push_coroutine.hpp
+++ b/include/boost/coroutine2/detail/push_coroutine.hpp
@@ -89,7 +89,7 @@ public:
 
         iterator & operator=( T t) {
             BOOST_ASSERT( nullptr != c_);
-            if ( ! ( * c_)( t) ) {
+            if ( ! ( * c_)( std::move( t) ) ) {
                 c_ = nullptr;
             }
             return * this;
-- 
2.43.0

