From 301772e098ff550bf5ac0da4b9b20197d3c6638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:40 +0000
Subject: [PATCH 01/12] fix: do not destroy a payload twice if storing the next
 one throws

set() destroyed the stored value but left bvalid set; if the copy or move of
the new value then threw, the dead object was destroyed again by the next
set() or by ~control_block().
---
 include/boost/coroutine2/detail/pull_control_block_cc.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/coroutine2/detail/pull_control_block_cc.ipp b/include/boost/coroutine2/detail/pull_control_block_cc.ipp
index f511e29..3d0f775 100644
--- a/include/boost/coroutine2/detail/pull_control_block_cc.ipp
+++ b/include/boost/coroutine2/detail/pull_control_block_cc.ipp
@@ -155,6 +155,7 @@ void
 pull_coroutine< T >::control_block::set( T const& t) {
     // destroy data if set
     if ( bvalid) {
+        bvalid = false;
         reinterpret_cast< T * >( std::addressof( storage) )->~T();
     }
     ::new ( static_cast< void * >( std::addressof( storage) ) ) T( t);
@@ -166,6 +167,7 @@ void
 pull_coroutine< T >::control_block::set( T && t) {
     // destroy data if set
     if ( bvalid) {
+        bvalid = false;
         reinterpret_cast< T * >( std::addressof( storage) )->~T();
     }
     ::new ( static_cast< void * >( std::addressof( storage) ) ) T( std::move( t) );
-- 
2.43.0


From a632f872a081163ce0b99e8f9cfd1043a9a4bd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:44 +0000
Subject: [PATCH 02/12] fix: copy a coroutine-function passed as lvalue in
 C++11

wrapper moved from its arguments even when they were lvalues, so that the
callable of the caller was left moved-from.
---
 include/boost/coroutine2/detail/wrap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/coroutine2/detail/wrap.hpp b/include/boost/coroutine2/detail/wrap.hpp
index 9c32edf..bb0aef5 100644
--- a/include/boost/coroutine2/detail/wrap.hpp
+++ b/include/boost/coroutine2/detail/wrap.hpp
@@ -34,8 +34,8 @@ private:
 
 public:
     wrapper( Fn1 && fn1, Fn2 && fn2) :
-        fn1_( std::move( fn1) ),
-        fn2_( std::move( fn2) ) {
+        fn1_( std::forward< Fn1 >( fn1) ),
+        fn2_( std::forward< Fn2 >( fn2) ) {
     }
 
     wrapper( wrapper const&) = delete;
-- 
2.43.0


From 0089315a67e0e5172d3b11feee73d2f858a82f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 03/12] fix: move assignment destroys the previous coroutine

The documentation promises that move assignment destroys the internal data of
*this; it only swapped, keeping the previous coroutine alive in the source.
---
 include/boost/coroutine2/detail/pull_coroutine.hpp | 9 ++++++---
 include/boost/coroutine2/detail/push_coroutine.hpp | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/boost/coroutine2/detail/pull_coroutine.hpp b/include/boost/coroutine2/detail/pull_coroutine.hpp
index 767a388..89ec5b0 100644
--- a/include/boost/coroutine2/detail/pull_coroutine.hpp
+++ b/include/boost/coroutine2/detail/pull_coroutine.hpp
@@ -55,7 +55,8 @@ public:
     pull_coroutine( pull_coroutine &&) noexcept;
 
     pull_coroutine & operator=( pull_coroutine && other) noexcept {
-        std::swap( cb_, other.cb_);
+        pull_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -166,7 +167,8 @@ public:
     pull_coroutine( pull_coroutine &&) noexcept;
 
     pull_coroutine & operator=( pull_coroutine && other) noexcept {
-        std::swap( cb_, other.cb_);
+        pull_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -275,7 +277,8 @@ public:
     pull_coroutine( pull_coroutine &&) noexcept;
 
     pull_coroutine & operator=( pull_coroutine && other) noexcept {
-        std::swap( cb_, other.cb_);
+        pull_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
diff --git a/include/boost/coroutine2/detail/push_coroutine.hpp b/include/boost/coroutine2/detail/push_coroutine.hpp
index 4b5ba5c..ed4a719 100644
--- a/include/boost/coroutine2/detail/push_coroutine.hpp
+++ b/include/boost/coroutine2/detail/push_coroutine.hpp
@@ -54,7 +54,8 @@ public:
 
     push_coroutine & operator=( push_coroutine && other) noexcept {
         if ( this == & other) return * this;
-        std::swap( cb_, other.cb_);
+        push_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -139,7 +140,8 @@ public:
 
     push_coroutine & operator=( push_coroutine && other) noexcept {
         if ( this == & other) return * this;
-        std::swap( cb_, other.cb_);
+        push_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -222,7 +224,8 @@ public:
 
     push_coroutine & operator=( push_coroutine && other) noexcept {
         if ( this == & other) return * this;
-        std::swap( cb_, other.cb_);
+        push_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
-- 
2.43.0


From 0a266965b21669a34fbf483e1296327bfd44f5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:00 +0000
Subject: [PATCH 04/12] fix: respect the alignment of over-aligned payloads

The control structure holds the payload but was never aligned to more than
64 bytes.
---
 include/boost/coroutine2/detail/create_control_block.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/coroutine2/detail/create_control_block.ipp b/include/boost/coroutine2/detail/create_control_block.ipp
index 127ea84..fd047d4 100644
--- a/include/boost/coroutine2/detail/create_control_block.ipp
+++ b/include/boost/coroutine2/detail/create_control_block.ipp
@@ -35,7 +35,7 @@ ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
     void * sp = static_cast< char * >( sctx.sp) - sizeof( ControlBlock);
     const std::size_t size = sctx.size - sizeof( ControlBlock);
 #else
-    constexpr std::size_t func_alignment = 64; // alignof( ControlBlock);
+    constexpr std::size_t func_alignment = alignof( ControlBlock) > 64 ? alignof( ControlBlock) : 64;
     constexpr std::size_t func_size = sizeof( ControlBlock);
     // reserve space on stack
     void * sp = static_cast< char * >( sctx.sp) - func_size - func_alignment;
-- 
2.43.0


From c3d2117f3a39f36c4f730c88482f5f019e7c6b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:04 +0000
Subject: [PATCH 05/12] fix: do not modify the control structure after its
 destruction

---
 .../coroutine2/detail/pull_control_block_cc.ipp      | 12 ++++++------
 .../coroutine2/detail/push_control_block_cc.ipp      | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/boost/coroutine2/detail/pull_control_block_cc.ipp b/include/boost/coroutine2/detail/pull_control_block_cc.ipp
index 3d0f775..cf72c3c 100644
--- a/include/boost/coroutine2/detail/pull_control_block_cc.ipp
+++ b/include/boost/coroutine2/detail/pull_control_block_cc.ipp
@@ -35,10 +35,10 @@ template< typename T >
 void
 pull_coroutine< T >::control_block::destroy( control_block * cb) noexcept {
     boost::context::fiber c = std::move( cb->c);
-    // destroy control structure
-    cb->~control_block();
     // destroy coroutine's stack
     cb->state |= state_t::destroy;
+    // destroy control structure
+    cb->~control_block();
 }
 
 template< typename T >
@@ -193,10 +193,10 @@ template< typename T >
 void
 pull_coroutine< T & >::control_block::destroy( control_block * cb) noexcept {
     boost::context::fiber c = std::move( cb->c);
-    // destroy control structure
-    cb->~control_block();
     // destroy coroutine's stack
     cb->state |= state_t::destroy;
+    // destroy control structure
+    cb->~control_block();
 }
 
 template< typename T >
@@ -326,10 +326,10 @@ inline
 void
 pull_coroutine< void >::control_block::destroy( control_block * cb) noexcept {
     boost::context::fiber c = std::move( cb->c);
-    // destroy control structure
-    cb->~control_block();
     // destroy coroutine's stack
     cb->state |= state_t::destroy;
+    // destroy control structure
+    cb->~control_block();
 }
 
 template< typename StackAllocator, typename Fn >
diff --git a/include/boost/coroutine2/detail/push_control_block_cc.ipp b/include/boost/coroutine2/detail/push_control_block_cc.ipp
index 695dc88..dbaaed2 100644
--- a/include/boost/coroutine2/detail/push_control_block_cc.ipp
+++ b/include/boost/coroutine2/detail/push_control_block_cc.ipp
@@ -34,10 +34,10 @@ template< typename T >
 void
 push_coroutine< T >::control_block::destroy( control_block * cb) noexcept {
     boost::context::fiber c = std::move( cb->c);
-    // destroy control structure
-    cb->~control_block();
     // destroy coroutine's stack
     cb->state |= state_t::destroy;
+    // destroy control structure
+    cb->~control_block();
 }
 
 template< typename T >
@@ -165,10 +165,10 @@ template< typename T >
 void
 push_coroutine< T & >::control_block::destroy( control_block * cb) noexcept {
     boost::context::fiber c = std::move( cb->c);
-    // destroy control structure
-    cb->~control_block();
     // destroy coroutine's stack
     cb->state |= state_t::destroy;
+    // destroy control structure
+    cb->~control_block();
 }
 
 template< typename T >
@@ -285,10 +285,10 @@ inline
 void
 push_coroutine< void >::control_block::destroy( control_block * cb) noexcept {
     boost::context::fiber c = std::move( cb->c);
-    // destroy control structure
-    cb->~control_block();
     // destroy coroutine's stack
     cb->state |= state_t::destroy;
+    // destroy control structure
+    cb->~control_block();
 }
 
 template< typename StackAllocator, typename Fn >
-- 
2.43.0


From c227f2a7b6827636c0c1de0ff46d80dcebaf9104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:09 +0000
Subject: [PATCH 06/12] fix: begin() of a complete push coroutine compares
 equal to end()

As documented, and as pull_coroutine<>::iterator does.
---
 include/boost/coroutine2/detail/push_coroutine.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/coroutine2/detail/push_coroutine.hpp b/include/boost/coroutine2/detail/push_coroutine.hpp
index ed4a719..162aef3 100644
--- a/include/boost/coroutine2/detail/push_coroutine.hpp
+++ b/include/boost/coroutine2/detail/push_coroutine.hpp
@@ -82,6 +82,9 @@ public:
 
         explicit iterator( push_coroutine< T > * c) noexcept :
             c_{ c } {
+            if ( nullptr != c_ && ! ( * c_) ) {
+                c_ = nullptr;
+            }
         }
 
         iterator & operator=( T t) {
@@ -166,6 +169,9 @@ public:
 
         explicit iterator( push_coroutine< T & > * c) noexcept :
             c_{ c } {
+            if ( nullptr != c_ && ! ( * c_) ) {
+                c_ = nullptr;
+            }
         }
 
         iterator & operator=( T & t) {
-- 
2.43.0


From 7be90443fc5638bd814e8629c037987cbe7fb588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:14 +0000
Subject: [PATCH 07/12] fix: remove has_result_(), which cannot be instantiated

The private member refers to a data member that does not exist any more, so
that explicit instantiation of pull_coroutine<> fails.
---
 include/boost/coroutine2/detail/pull_coroutine.hpp |  4 ----
 include/boost/coroutine2/detail/pull_coroutine.ipp | 12 ------------
 2 files changed, 16 deletions(-)

diff --git a/include/boost/coroutine2/detail/pull_coroutine.hpp b/include/boost/coroutine2/detail/pull_coroutine.hpp
index 89ec5b0..f94def6 100644
--- a/include/boost/coroutine2/detail/pull_coroutine.hpp
+++ b/include/boost/coroutine2/detail/pull_coroutine.hpp
@@ -36,8 +36,6 @@ private:
 
     explicit pull_coroutine( control_block *) noexcept;
 
-    bool has_result_() const noexcept;
-
 public:
     template< typename Fn,
               typename = detail::disable_overload< pull_coroutine, Fn >
@@ -148,8 +146,6 @@ private:
 
     explicit pull_coroutine( control_block *) noexcept;
 
-    bool has_result_() const noexcept;
-
 public:
     template< typename Fn,
               typename = detail::disable_overload< pull_coroutine, Fn >
diff --git a/include/boost/coroutine2/detail/pull_coroutine.ipp b/include/boost/coroutine2/detail/pull_coroutine.ipp
index 6a2f6ed..6a6cdf2 100644
--- a/include/boost/coroutine2/detail/pull_coroutine.ipp
+++ b/include/boost/coroutine2/detail/pull_coroutine.ipp
@@ -34,12 +34,6 @@ pull_coroutine< T >::pull_coroutine( control_block * cb) noexcept :
     cb_{ cb } {
 }
 
-template< typename T >
-bool
-pull_coroutine< T >::has_result_() const noexcept {
-    return nullptr != cb_->other->t;
-}
-
 template< typename T >
 template< typename Fn,
           typename
@@ -103,12 +97,6 @@ pull_coroutine< T & >::pull_coroutine( control_block * cb) noexcept :
     cb_{ cb } {
 }
 
-template< typename T >
-bool
-pull_coroutine< T & >::has_result_() const noexcept {
-    return nullptr != cb_->other->t;
-}
-
 template< typename T >
 template< typename Fn,
           typename
-- 
2.43.0


From a9a1f187cd9e163d45eb10a9bded4ecf7be57d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:45 +0000
Subject: [PATCH 08/12] fix: do not leak the stack if copying the
 coroutine-function throws

The stack was allocated before the coroutine-function was copied and nothing
owned it at that point.
---
 include/boost/coroutine2/detail/create_control_block.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/coroutine2/detail/create_control_block.ipp b/include/boost/coroutine2/detail/create_control_block.ipp
index fd047d4..6089d61 100644
--- a/include/boost/coroutine2/detail/create_control_block.ipp
+++ b/include/boost/coroutine2/detail/create_control_block.ipp
@@ -9,6 +9,7 @@
 
 #include <cstddef>
 #include <memory>
+#include <type_traits>
 #include <utility>
 
 #include <boost/assert.hpp>
@@ -29,6 +30,8 @@ namespace detail {
 
 template< typename ControlBlock, typename StackAllocator, typename Fn >
 ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
+    // copying the coroutine-function might throw, nothing is allocated yet
+    typename std::decay< Fn >::type fn_( std::forward< Fn >( fn) );
     auto sctx = salloc.allocate();
     // reserve space for control structure
 #if defined(BOOST_NO_CXX11_CONSTEXPR) || defined(BOOST_NO_CXX11_STD_ALIGN)
@@ -48,7 +51,7 @@ ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
 #endif
     // placment new for control structure on coroutine stack
     return new ( sp) ControlBlock{ context::preallocated( sp, size, sctx),
-                                   std::forward< StackAllocator >( salloc), std::forward< Fn >( fn) };
+                                   std::forward< StackAllocator >( salloc), std::move( fn_) };
 }
 
 }}}
-- 
2.43.0


From 8f75b60e6960bb3af0318800d4128b7503657378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:45 +0000
Subject: [PATCH 09/12] fix: make fixedsize_stack.hpp and segmented_stack.hpp
 self-contained

Both included detail/coroutine.hpp, which includes them back and uses
default_stack before it is declared.
---
 include/boost/coroutine2/fixedsize_stack.hpp | 2 +-
 include/boost/coroutine2/segmented_stack.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/coroutine2/fixedsize_stack.hpp b/include/boost/coroutine2/fixedsize_stack.hpp
index 54fc3df..0cca285 100644
--- a/include/boost/coroutine2/fixedsize_stack.hpp
+++ b/include/boost/coroutine2/fixedsize_stack.hpp
@@ -13,7 +13,7 @@
 #include <boost/config.hpp>
 #include <boost/context/fixedsize_stack.hpp>
 
-#include <boost/coroutine2/detail/coroutine.hpp>
+#include <boost/coroutine2/detail/config.hpp>
 
 #ifdef BOOST_HAS_ABI_HEADERS
 #  include BOOST_ABI_PREFIX
diff --git a/include/boost/coroutine2/segmented_stack.hpp b/include/boost/coroutine2/segmented_stack.hpp
index 24f93c8..a3e6d65 100644
--- a/include/boost/coroutine2/segmented_stack.hpp
+++ b/include/boost/coroutine2/segmented_stack.hpp
@@ -13,7 +13,7 @@
 #include <boost/config.hpp>
 #include <boost/context/segmented_stack.hpp>
 
-#include <boost/coroutine2/detail/coroutine.hpp>
+#include <boost/coroutine2/detail/config.hpp>
 
 #ifdef BOOST_HAS_ABI_HEADERS
 #  include BOOST_ABI_PREFIX
-- 
2.43.0


From 7f52b802ebc7f916ed9e0be7bbee5c7da00ab107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:58 +0000
Subject: [PATCH 10/12] fix: keep a coroutine-function whose move may throw on
 the heap

Boost.Context moves the function into its record inside a noexcept
constructor, after the stack has been allocated. A function without a
non-throwing move (copy-only ones included) terminated the program or
leaked the stack if that move threw.
---
 .../detail/create_control_block.ipp           | 30 ++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/include/boost/coroutine2/detail/create_control_block.ipp b/include/boost/coroutine2/detail/create_control_block.ipp
index 6089d61..29ee91d 100644
--- a/include/boost/coroutine2/detail/create_control_block.ipp
+++ b/include/boost/coroutine2/detail/create_control_block.ipp
@@ -28,10 +28,38 @@ namespace boost {
 namespace coroutines2 {
 namespace detail {
 
+// coroutine-function is handed over to boost::context by moving it, which must not throw
+template< typename Fn, bool = std::is_nothrow_move_constructible< Fn >::value >
+struct stored_fn {
+    typedef Fn  type;
+};
+
+// hold it on the heap if its move (or copy, if it has no move) might throw
+template< typename Fn >
+struct stored_fn< Fn, false > {
+    class type {
+    private:
+        std::unique_ptr< Fn >   fn_;
+
+    public:
+        template< typename X >
+        explicit type( X && x) :
+            fn_{ new Fn( std::forward< X >( x) ) } {
+        }
+
+        type( type &&) noexcept = default;
+
+        template< typename Coro >
+        void operator()( Coro & c) {
+            ( * fn_)( c);
+        }
+    };
+};
+
 template< typename ControlBlock, typename StackAllocator, typename Fn >
 ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
     // copying the coroutine-function might throw, nothing is allocated yet
-    typename std::decay< Fn >::type fn_( std::forward< Fn >( fn) );
+    typename stored_fn< typename std::decay< Fn >::type >::type fn_( std::forward< Fn >( fn) );
     auto sctx = salloc.allocate();
     // reserve space for control structure
 #if defined(BOOST_NO_CXX11_CONSTEXPR) || defined(BOOST_NO_CXX11_STD_ALIGN)
-- 
2.43.0


From 6a1131bca069df0a474b4923bd99f99a80633418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:15 +0000
Subject: [PATCH 11/12] fix: align the control structure where std::align or
 constexpr are not available

---
 include/boost/coroutine2/detail/create_control_block.ipp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/coroutine2/detail/create_control_block.ipp b/include/boost/coroutine2/detail/create_control_block.ipp
index 29ee91d..6db98c4 100644
--- a/include/boost/coroutine2/detail/create_control_block.ipp
+++ b/include/boost/coroutine2/detail/create_control_block.ipp
@@ -8,6 +8,7 @@
 #define BOOST_COROUTINES2_DETAIL_CREATE_CONTROLBLOCK_IPP
 
 #include <cstddef>
+#include <cstdint>
 #include <memory>
 #include <type_traits>
 #include <utility>
@@ -63,8 +64,12 @@ ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
     auto sctx = salloc.allocate();
     // reserve space for control structure
 #if defined(BOOST_NO_CXX11_CONSTEXPR) || defined(BOOST_NO_CXX11_STD_ALIGN)
-    void * sp = static_cast< char * >( sctx.sp) - sizeof( ControlBlock);
-    const std::size_t size = sctx.size - sizeof( ControlBlock);
+    const std::size_t func_alignment = alignof( ControlBlock) > 64 ? alignof( ControlBlock) : 64;
+    // reserve space on stack, align sp pointer
+    void * sp = reinterpret_cast< void * >(
+            ( reinterpret_cast< std::uintptr_t >( sctx.sp) - sizeof( ControlBlock) ) & ~ static_cast< std::uintptr_t >( func_alignment - 1) );
+    // calculate remaining size
+    const std::size_t size = sctx.size - ( static_cast< char * >( sctx.sp) - static_cast< char * >( sp) );
 #else
     constexpr std::size_t func_alignment = alignof( ControlBlock) > 64 ? alignof( ControlBlock) : 64;
     constexpr std::size_t func_size = sizeof( ControlBlock);
-- 
2.43.0


From 500fa03d8e2e79da7ba8e6897cea6d1034722ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:04 +0000
Subject: [PATCH 12/12] fix: hold callables with a throwing move without their
 operator new, and aligned

A coroutine-function whose move might throw was held through operator new
of its own class, which it may not have, and in C++11/14 operator new does
not align over-aligned types.
---
 .../detail/create_control_block.ipp           | 27 ++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/boost/coroutine2/detail/create_control_block.ipp b/include/boost/coroutine2/detail/create_control_block.ipp
index 6db98c4..aed2bb0 100644
--- a/include/boost/coroutine2/detail/create_control_block.ipp
+++ b/include/boost/coroutine2/detail/create_control_block.ipp
@@ -40,19 +40,40 @@ template< typename Fn >
 struct stored_fn< Fn, false > {
     class type {
     private:
-        std::unique_ptr< Fn >   fn_;
+        // neither uses operator new of Fn nor relies on it to align Fn
+        struct holder {
+            unsigned char   storage[sizeof( Fn) + alignof( Fn) - 1];
+            Fn          *   fn;
+
+            template< typename X >
+            explicit holder( X && x) {
+                const std::uintptr_t mask = alignof( Fn) - 1;
+                void * p = reinterpret_cast< void * >(
+                        ( reinterpret_cast< std::uintptr_t >( storage) + mask) & ~ mask);
+                fn = ::new ( p) Fn( std::forward< X >( x) );
+            }
+
+            ~holder() {
+                fn->~Fn();
+            }
+
+            holder( holder const&) = delete;
+            holder & operator=( holder const&) = delete;
+        };
+
+        std::unique_ptr< holder >   h_;
 
     public:
         template< typename X >
         explicit type( X && x) :
-            fn_{ new Fn( std::forward< X >( x) ) } {
+            h_{ new holder( std::forward< X >( x) ) } {
         }
 
         type( type &&) noexcept = default;
 
         template< typename Coro >
         void operator()( Coro & c) {
-            ( * fn_)( c);
+            ( * h_->fn)( c);
         }
     };
 };
-- 
2.43.0

