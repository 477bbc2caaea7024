From 9f27601fc7fc07cc0dfabb32b3d680ac92749dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 01/24] fix: do not lose a notification delivered to a timed
 waiter that resumes after its deadline

---
 include/boost/fiber/waker.hpp |  3 +++
 src/waker.cpp                 | 17 +++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/boost/fiber/waker.hpp b/include/boost/fiber/waker.hpp
index 7ee8459..22c6375 100644
--- a/include/boost/fiber/waker.hpp
+++ b/include/boost/fiber/waker.hpp
@@ -56,6 +56,9 @@ public:
 
 public:
     detail::waker_queue_hook waker_queue_hook_{};
+    // set by the notification that has woken up the waiting fiber;
+    // protected by the lock that protects the wait_queue
+    bool notified_{ false };
 };
 
 namespace detail {
diff --git a/src/waker.cpp b/src/waker.cpp
index 1444dea..959154f 100644
--- a/src/waker.cpp
+++ b/src/waker.cpp
@@ -41,7 +41,9 @@ wait_queue::suspend_and_wait_until( detail::spinlock_lock & lk,
             slist_.remove( w);
         }
         lk.unlock();
-        return false;
+        // a notification might have woken up this fiber before it was resumed
+        // after the deadline, it must not get lost
+        return w.notified_;
     }
     return true;
 }
@@ -49,20 +51,27 @@ wait_queue::suspend_and_wait_until( detail::spinlock_lock & lk,
 void
 wait_queue::notify_one() {
     while ( ! slist_.empty() ) {
-        waker & w = slist_.front();
+        waker_with_hook & w = slist_.front();
         slist_.pop_front();
+        // a woken fiber might leave the wait-queue immediately
+        // `w` is accessed after wake() only if the fiber was not woken up
+        w.notified_ = true;
         if ( w.wake()) {
             break;
         }
+        w.notified_ = false;
     }
 }
 
 void
 wait_queue::notify_all() {
     while ( ! slist_.empty() ) {
-        waker & w = slist_.front();
+        waker_with_hook & w = slist_.front();
         slist_.pop_front();
-        w.wake();
+        w.notified_ = true;
+        if ( ! w.wake()) {
+            w.notified_ = false;
+        }
     }
 }
 
-- 
2.43.0


From c9b852264eb85b80d55fbef9d5685533f58c8f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 02/24] fix: timed acquisition of a free mutex succeeds even if
 the deadline has passed

---
 src/recursive_timed_mutex.cpp | 6 +++---
 src/timed_mutex.cpp           | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/recursive_timed_mutex.cpp b/src/recursive_timed_mutex.cpp
index 5958c72..3d01236 100644
--- a/src/recursive_timed_mutex.cpp
+++ b/src/recursive_timed_mutex.cpp
@@ -22,9 +22,6 @@ namespace fibers {
 bool
 recursive_timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point const& timeout_time) noexcept {
     while ( true) {
-        if ( std::chrono::steady_clock::now() > timeout_time) {
-            return false;
-        }
         context * active_ctx = context::active();
         // store this fiber in order to be notified later
         detail::spinlock_lock lk{ wait_queue_splk_ };
@@ -37,6 +34,9 @@ recursive_timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point co
             count_ = 1;
             return true;
         }
+        if ( std::chrono::steady_clock::now() > timeout_time) {
+            return false;
+        }
         if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {
             return false;
         }
diff --git a/src/timed_mutex.cpp b/src/timed_mutex.cpp
index d0482c5..fa98514 100644
--- a/src/timed_mutex.cpp
+++ b/src/timed_mutex.cpp
@@ -22,15 +22,15 @@ namespace fibers {
 bool
 timed_mutex::try_lock_until_( std::chrono::steady_clock::time_point const& timeout_time) noexcept {
     while ( true) {
-        if ( std::chrono::steady_clock::now() > timeout_time) {
-            return false;
-        }
         context * active_ctx = context::active();
         detail::spinlock_lock lk{ wait_queue_splk_ };
         if ( nullptr == owner_) {
             owner_ = active_ctx;
             return true;
         }
+        if ( std::chrono::steady_clock::now() > timeout_time) {
+            return false;
+        }
         if ( ! wait_queue_.suspend_and_wait_until( lk, active_ctx, timeout_time)) {
             return false;
         }
-- 
2.43.0


From 15cbd32d263ff7cca02299490612199f3a2eca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:44 +0000
Subject: [PATCH 03/24] fix: try_lock of the mutexes reads the owner only under
 the lock

---
 src/mutex.cpp                 | 3 ++-
 src/recursive_mutex.cpp       | 3 ++-
 src/recursive_timed_mutex.cpp | 3 ++-
 src/timed_mutex.cpp           | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mutex.cpp b/src/mutex.cpp
index 7b06451..80c5eec 100644
--- a/src/mutex.cpp
+++ b/src/mutex.cpp
@@ -53,10 +53,11 @@ mutex::try_lock() {
     if ( nullptr == owner_) {
         owner_ = active_ctx;
     }
+    const bool acquired = active_ctx == owner_;
     lk.unlock();
     // let other fiber release the lock
     active_ctx->yield();
-    return active_ctx == owner_;
+    return acquired;
 }
 
 void
diff --git a/src/recursive_mutex.cpp b/src/recursive_mutex.cpp
index 9358066..5a78f38 100644
--- a/src/recursive_mutex.cpp
+++ b/src/recursive_mutex.cpp
@@ -49,10 +49,11 @@ recursive_mutex::try_lock() noexcept {
     } else if ( active_ctx == owner_) {
         ++count_;
     }
+    const bool acquired = active_ctx == owner_;
     lk.unlock();
     // let other fiber release the lock
     context::active()->yield();
-    return active_ctx == owner_;
+    return acquired;
 }
 
 void
diff --git a/src/recursive_timed_mutex.cpp b/src/recursive_timed_mutex.cpp
index 3d01236..a3f75ae 100644
--- a/src/recursive_timed_mutex.cpp
+++ b/src/recursive_timed_mutex.cpp
@@ -72,10 +72,11 @@ recursive_timed_mutex::try_lock() noexcept {
     } else if ( active_ctx == owner_) {
         ++count_;
     }
+    const bool acquired = active_ctx == owner_;
     lk.unlock();
     // let other fiber release the lock
     active_ctx->yield();
-    return active_ctx == owner_;
+    return acquired;
 }
 
 void
diff --git a/src/timed_mutex.cpp b/src/timed_mutex.cpp
index fa98514..6603ea3 100644
--- a/src/timed_mutex.cpp
+++ b/src/timed_mutex.cpp
@@ -68,10 +68,11 @@ timed_mutex::try_lock() {
     if ( nullptr == owner_) {
         owner_ = active_ctx;
     }
+    const bool acquired = active_ctx == owner_;
     lk.unlock();
     // let other fiber release the lock
     active_ctx->yield();
-    return active_ctx == owner_;
+    return acquired;
 }
 
 void
-- 
2.43.0


From 99b904b27d758479fe7843a808e4c6433d0cb320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 04/24] fix: notify a remote scheduler before its thread can
 resume the fiber and destroy it

---
 src/scheduler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 69ae61c..6635c00 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -208,8 +208,9 @@ scheduler::schedule_from_remote( context * ctx) noexcept {
     BOOST_ASSERT( nullptr != dispatcher_ctx_.get() );
     // push new context to remote ready-queue
     ctx->remote_ready_link( remote_ready_queue_);
-    lk.unlock();
     // notify scheduler
+    // while holding the lock: as soon as the lock is released the other
+    // thread might resume ctx, terminate and destroy this scheduler
     algo_->notify();
 }
 #endif
-- 
2.43.0


From 9f97c572cf0beabffe468b7b8251c8e862dff5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 05/24] fix: channel iterators destroy the current value only
 once on increment

---
 include/boost/fiber/buffered_channel.hpp   | 1 -
 include/boost/fiber/unbuffered_channel.hpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/include/boost/fiber/buffered_channel.hpp b/include/boost/fiber/buffered_channel.hpp
index 492486d..a562168 100644
--- a/include/boost/fiber/buffered_channel.hpp
+++ b/include/boost/fiber/buffered_channel.hpp
@@ -409,7 +409,6 @@ public:
         }
 
         iterator & operator++() {
-            reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
             increment_();
             return * this;
         }
diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index 4b8c807..b48ac5a 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -444,7 +444,6 @@ public:
         }
 
         iterator & operator++() {
-            reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
             increment_();
             return * this;
         }
-- 
2.43.0


From 28232bd18ccb165c51481e12be76013e95d05185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 06/24] fix: channel iterators own the value they refer to

---
 include/boost/fiber/buffered_channel.hpp   | 76 ++++++++++++++++-----
 include/boost/fiber/unbuffered_channel.hpp | 79 +++++++++++++++++-----
 2 files changed, 120 insertions(+), 35 deletions(-)

diff --git a/include/boost/fiber/buffered_channel.hpp b/include/boost/fiber/buffered_channel.hpp
index a562168..b0c14f2 100644
--- a/include/boost/fiber/buffered_channel.hpp
+++ b/include/boost/fiber/buffered_channel.hpp
@@ -361,15 +361,29 @@ public:
         buffered_channel    *   chan_{ nullptr };
         storage_type            storage_;
 
-        void increment_( bool initial = false) {
-            BOOST_ASSERT( nullptr != chan_);
+        value_type * value_() noexcept {
+            return reinterpret_cast< value_type * >( std::addressof( storage_) );
+        }
+
+        value_type const* value_() const noexcept {
+            return reinterpret_cast< value_type const* >( std::addressof( storage_) );
+        }
+
+        // storage_ contains a value if and only if chan_ is not null
+        void reset_() noexcept {
+            if ( nullptr != chan_) {
+                chan_ = nullptr;
+                value_()->~value_type();
+            }
+        }
+
+        void increment_( buffered_channel * chan) {
+            BOOST_ASSERT( nullptr != chan);
+            reset_();
             try {
-                if ( ! initial) {
-                    reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
-                }
-                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ chan_->value_pop() };
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ chan->value_pop() };
+                chan_ = chan;
             } catch ( fiber_error const&) {
-                chan_ = nullptr;
             }
         }
 
@@ -384,19 +398,47 @@ public:
 
         iterator() = default;
 
-        explicit iterator( buffered_channel< T > * chan) noexcept :
-            chan_{ chan } {
-            increment_( true);
+        explicit iterator( buffered_channel< T > * chan) noexcept {
+            increment_( chan);
         }
 
-        iterator( iterator const& other) noexcept :
-            chan_{ other.chan_ } {
+        iterator( iterator const& other) {
+            if ( nullptr != other.chan_) {
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type( * other.value_() );
+                chan_ = other.chan_;
+            }
         }
 
-        iterator & operator=( iterator const& other) noexcept {
-            if ( BOOST_LIKELY( this != & other) ) {
+        iterator( iterator && other) {
+            if ( nullptr != other.chan_) {
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type( std::move( * other.value_() ) );
                 chan_ = other.chan_;
             }
+        }
+
+        ~iterator() {
+            reset_();
+        }
+
+        iterator & operator=( iterator const& other) {
+            if ( BOOST_LIKELY( this != & other) ) {
+                reset_();
+                if ( nullptr != other.chan_) {
+                    ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type( * other.value_() );
+                    chan_ = other.chan_;
+                }
+            }
+            return * this;
+        }
+
+        iterator & operator=( iterator && other) {
+            if ( BOOST_LIKELY( this != & other) ) {
+                reset_();
+                if ( nullptr != other.chan_) {
+                    ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type( std::move( * other.value_() ) );
+                    chan_ = other.chan_;
+                }
+            }
             return * this;
         }
 
@@ -409,18 +451,18 @@ public:
         }
 
         iterator & operator++() {
-            increment_();
+            increment_( chan_);
             return * this;
         }
 
         const iterator operator++( int) = delete;
 
         reference_t operator*() noexcept {
-            return * reinterpret_cast< value_type * >( std::addressof( storage_) );
+            return * value_();
         }
 
         pointer_t operator->() noexcept {
-            return reinterpret_cast< value_type * >( std::addressof( storage_) );
+            return value_();
         }
     };
 
diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index b48ac5a..b5846b8 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -397,15 +397,29 @@ public:
         unbuffered_channel  *   chan_{ nullptr };
         storage_type            storage_;
 
-        void increment_( bool initial = false) {
-            BOOST_ASSERT( nullptr != chan_);
+        value_type * value_() noexcept {
+            return reinterpret_cast< value_type * >( std::addressof( storage_) );
+        }
+
+        value_type const* value_() const noexcept {
+            return reinterpret_cast< value_type const* >( std::addressof( storage_) );
+        }
+
+        // storage_ contains a value if and only if chan_ is not null
+        void reset_() noexcept {
+            if ( nullptr != chan_) {
+                chan_ = nullptr;
+                value_()->~value_type();
+            }
+        }
+
+        void increment_( unbuffered_channel * chan) {
+            BOOST_ASSERT( nullptr != chan);
+            reset_();
             try {
-                if ( ! initial) {
-                    reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
-                }
-                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ chan_->value_pop() };
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type{ chan->value_pop() };
+                chan_ = chan;
             } catch ( fiber_error const&) {
-                chan_ = nullptr;
             }
         }
 
@@ -420,18 +434,47 @@ public:
 
         iterator() = default;
 
-        explicit iterator( unbuffered_channel< T > * chan) noexcept :
-            chan_{ chan } {
-            increment_( true);
+        explicit iterator( unbuffered_channel< T > * chan) noexcept {
+            increment_( chan);
         }
 
-        iterator( iterator const& other) noexcept :
-            chan_{ other.chan_ } {
+        iterator( iterator const& other) {
+            if ( nullptr != other.chan_) {
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type( * other.value_() );
+                chan_ = other.chan_;
+            }
         }
 
-        iterator & operator=( iterator const& other) noexcept {
-            if ( this == & other) return * this;
-            chan_ = other.chan_;
+        iterator( iterator && other) {
+            if ( nullptr != other.chan_) {
+                ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type( std::move( * other.value_() ) );
+                chan_ = other.chan_;
+            }
+        }
+
+        ~iterator() {
+            reset_();
+        }
+
+        iterator & operator=( iterator const& other) {
+            if ( BOOST_LIKELY( this != & other) ) {
+                reset_();
+                if ( nullptr != other.chan_) {
+                    ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type( * other.value_() );
+                    chan_ = other.chan_;
+                }
+            }
+            return * this;
+        }
+
+        iterator & operator=( iterator && other) {
+            if ( BOOST_LIKELY( this != & other) ) {
+                reset_();
+                if ( nullptr != other.chan_) {
+                    ::new ( static_cast< void * >( std::addressof( storage_) ) ) value_type( std::move( * other.value_() ) );
+                    chan_ = other.chan_;
+                }
+            }
             return * this;
         }
 
@@ -444,18 +487,18 @@ public:
         }
 
         iterator & operator++() {
-            increment_();
+            increment_( chan_);
             return * this;
         }
 
         const iterator operator++( int) = delete;
 
         reference_t operator*() noexcept {
-            return * reinterpret_cast< value_type * >( std::addressof( storage_) );
+            return * value_();
         }
 
         pointer_t operator->() noexcept {
-            return reinterpret_cast< value_type * >( std::addressof( storage_) );
+            return value_();
         }
     };
 
-- 
2.43.0


From c86a62c5c552424b2e0aec6af243917c92960347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 07/24] fix: unbuffered channel: hand over the slot under a
 lock

A producer that was resumed by close() or by its deadline after its value had
been taken reported closed/timeout; close() left the slot pointing into the
stack frame of the resumed producer, where a later pop read it; a producer that
gave up did not wake a producer waiting for the slot; a consumer on another
thread could access the slot after its producer had left push().
---
 include/boost/fiber/unbuffered_channel.hpp | 183 +++++++++++++--------
 1 file changed, 113 insertions(+), 70 deletions(-)

diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index b5846b8..6fbb168 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -43,6 +43,8 @@ private:
     struct slot {
         value_type  value;
         waker       w;
+        // set if the value has been taken by a consumer
+        bool        consumed{ false };
 
         slot( value_type const& value_, waker && w) :
             value{ value_ },
@@ -55,6 +57,9 @@ private:
         }
     };
 
+    // protects slot_ and the slot it points to; a producer does not leave
+    // push() while its slot is accessed by another fiber
+    mutable detail::spinlock    splk_slot_{};
     // shared cacheline
     std::atomic< slot * >       slot_{ nullptr };
     // shared cacheline
@@ -69,29 +74,63 @@ private:
         return nullptr == slot_.load( std::memory_order_acquire);
     }
 
-    bool try_push_( slot * own_slot) {
-        for (;;) {
-            slot * s = slot_.load( std::memory_order_acquire);
-            if ( nullptr == s) {
-                if ( ! slot_.compare_exchange_strong( s, own_slot, std::memory_order_acq_rel) ) {
-                    continue;
-                }
+    void lock_slot_( detail::spinlock_lock & lk) const {
+        while ( ! lk.try_lock() ) {
+            context::active()->yield();
+        }
+    }
+
+    channel_op_status try_push_( slot * own_slot) {
+        detail::spinlock_lock lk{ splk_slot_, std::defer_lock };
+        lock_slot_( lk);
+        if ( BOOST_UNLIKELY( is_closed() ) ) {
+            return channel_op_status::closed;
+        }
+        if ( ! is_empty_() ) {
+            return channel_op_status::full;
+        }
+        slot_.store( own_slot, std::memory_order_release);
+        return channel_op_status::success;
+    }
+
+    // called by the resumed producer, returns true if the value has been consumed
+    bool withdraw_( slot * own_slot) {
+        {
+            detail::spinlock_lock lk{ splk_slot_, std::defer_lock };
+            lock_slot_( lk);
+            if ( own_slot->consumed) {
                 return true;
             }
-            return false;
+            if ( own_slot == slot_.load( std::memory_order_acquire) ) {
+                slot_.store( nullptr, std::memory_order_release);
+            }
         }
+        // slot is free
+        detail::spinlock_lock lk{ splk_producers_ };
+        waiting_producers_.notify_one();
+        return false;
     }
 
-    slot * try_pop_() {
-        slot * nil_slot = nullptr;
-        for (;;) {
-            slot * s = slot_.load( std::memory_order_acquire);
-            if ( nullptr != s) {
-                if ( ! slot_.compare_exchange_strong( s, nil_slot, std::memory_order_acq_rel) ) {
-                    continue;}
-            }
-            return s;
+    // returns with lk locked if there is a slot
+    slot * try_pop_( detail::spinlock_lock & lk) {
+        lock_slot_( lk);
+        slot * s = slot_.load( std::memory_order_acquire);
+        if ( nullptr == s) {
+            lk.unlock();
         }
+        return s;
+    }
+
+    // called by the consumer with splk_slot_ locked
+    void consumed_( slot * s) {
+        slot_.store( nullptr, std::memory_order_release);
+        s->consumed = true;
+        {
+            detail::spinlock_lock lk{ splk_producers_ };
+            waiting_producers_.notify_one();
+        }
+        // notify context
+        s->w.wake();
     }
 
 public:
@@ -110,12 +149,18 @@ public:
 
     void close() noexcept {
         // set flag
-        if ( ! closed_.exchange( true, std::memory_order_acquire) ) {
-            // notify current waiting  
-            slot * s = slot_.load( std::memory_order_acquire);
-            if ( nullptr != s) {
-                // notify context
-                s->w.wake();
+        if ( ! closed_.exchange( true, std::memory_order_acq_rel) ) {
+            {
+                // notify current waiting
+                detail::spinlock_lock lk{ splk_slot_, std::defer_lock };
+                lock_slot_( lk);
+                slot * s = slot_.load( std::memory_order_acquire);
+                if ( nullptr != s) {
+                    // value will not be consumed
+                    slot_.store( nullptr, std::memory_order_release);
+                    // notify context
+                    s->w.wake();
+                }
             }
             detail::spinlock_lock lk1{ splk_producers_ };
             waiting_producers_.notify_all();
@@ -133,13 +178,17 @@ public:
                 return channel_op_status::closed;
             }
             s.w = active_ctx->create_waker();
-            if ( try_push_( & s) ) {
+            channel_op_status status = try_push_( & s);
+            if ( BOOST_UNLIKELY( channel_op_status::closed == status) ) {
+                return channel_op_status::closed;
+            }
+            if ( channel_op_status::success == status) {
                 detail::spinlock_lock lk{ splk_consumers_ };
                 waiting_consumers_.notify_one();
                 // suspend till value has been consumed
                 active_ctx->suspend( lk);
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
+                if ( BOOST_UNLIKELY( ! withdraw_( & s) ) ) {
                     // channel was closed before value was consumed
                     return channel_op_status::closed;
                 }
@@ -167,13 +216,17 @@ public:
                 return channel_op_status::closed;
             }
             s.w = active_ctx->create_waker();
-            if ( try_push_( & s) ) {
+            channel_op_status status = try_push_( & s);
+            if ( BOOST_UNLIKELY( channel_op_status::closed == status) ) {
+                return channel_op_status::closed;
+            }
+            if ( channel_op_status::success == status) {
                 detail::spinlock_lock lk{ splk_consumers_ };
                 waiting_consumers_.notify_one();
                 // suspend till value has been consumed
                 active_ctx->suspend( lk);
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
+                if ( BOOST_UNLIKELY( ! withdraw_( & s) ) ) {
                     // channel was closed before value was consumed
                     return channel_op_status::closed;
                 }
@@ -217,21 +270,21 @@ public:
                 return channel_op_status::closed;
             }
             s.w = active_ctx->create_waker();
-            if ( try_push_( & s) ) {
+            channel_op_status status = try_push_( & s);
+            if ( BOOST_UNLIKELY( channel_op_status::closed == status) ) {
+                return channel_op_status::closed;
+            }
+            if ( channel_op_status::success == status) {
                 detail::spinlock_lock lk{ splk_consumers_ };
                 waiting_consumers_.notify_one();
                 // suspend this producer
-                if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w))) {
-                    // clear slot
-                    slot * nil_slot = nullptr, * own_slot = & s;
-                    slot_.compare_exchange_strong( own_slot, nil_slot, std::memory_order_acq_rel);
-                    // resumed, value has not been consumed
-                    return channel_op_status::timeout;
-                }
+                active_ctx->wait_until(timeout_time, lk, waker(s.w));
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
+                if ( BOOST_UNLIKELY( ! withdraw_( & s) ) ) {
+                    // channel was closed or deadline reached before value was consumed
+                    return is_closed()
+                        ? channel_op_status::closed
+                        : channel_op_status::timeout;
                 }
                 // value has been consumed
                 return channel_op_status::success;
@@ -263,21 +316,21 @@ public:
                 return channel_op_status::closed;
             }
             s.w = active_ctx->create_waker();
-            if ( try_push_( & s) ) {
+            channel_op_status status = try_push_( & s);
+            if ( BOOST_UNLIKELY( channel_op_status::closed == status) ) {
+                return channel_op_status::closed;
+            }
+            if ( channel_op_status::success == status) {
                 detail::spinlock_lock lk{ splk_consumers_ };
                 waiting_consumers_.notify_one();
                 // suspend this producer
-                if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w))) {
-                    // clear slot
-                    slot * nil_slot = nullptr, * own_slot = & s;
-                    slot_.compare_exchange_strong( own_slot, nil_slot, std::memory_order_acq_rel);
-                    // resumed, value has not been consumed
-                    return channel_op_status::timeout;
-                }
+                active_ctx->wait_until(timeout_time, lk, waker(s.w));
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
-                    // channel was closed before value was consumed
-                    return channel_op_status::closed;
+                if ( BOOST_UNLIKELY( ! withdraw_( & s) ) ) {
+                    // channel was closed or deadline reached before value was consumed
+                    return is_closed()
+                        ? channel_op_status::closed
+                        : channel_op_status::timeout;
                 }
                 // value has been consumed
                 return channel_op_status::success;
@@ -301,14 +354,11 @@ public:
         context * active_ctx = context::active();
         slot * s = nullptr;
         for (;;) {
-            if ( nullptr != ( s = try_pop_() ) ) {
-                {
-                    detail::spinlock_lock lk{ splk_producers_ };
-                    waiting_producers_.notify_one();
-                }
+            detail::spinlock_lock slot_lk{ splk_slot_, std::defer_lock };
+            if ( nullptr != ( s = try_pop_( slot_lk) ) ) {
+                // consume value
                 value = std::move( s->value);
-                // notify context
-                s->w.wake();
+                consumed_( s);
                 return channel_op_status::success;
             }
             detail::spinlock_lock lk{ splk_consumers_ };
@@ -327,15 +377,12 @@ public:
         context * active_ctx = context::active();
         slot * s = nullptr;
         for (;;) {
-            if ( nullptr != ( s = try_pop_() ) ) {
-                {
-                    detail::spinlock_lock lk{ splk_producers_ };
-                    waiting_producers_.notify_one();
-                }
+            detail::spinlock_lock slot_lk{ splk_slot_, std::defer_lock };
+            if ( nullptr != ( s = try_pop_( slot_lk) ) ) {
                 // consume value
                 value_type value = std::move( s->value);
-                // notify context
-                s->w.wake();
+                consumed_( s);
+                slot_lk.unlock();
                 return std::move( value);
             }
             detail::spinlock_lock lk{ splk_consumers_ };
@@ -366,15 +413,11 @@ public:
         slot * s = nullptr;
         std::chrono::steady_clock::time_point timeout_time = detail::convert( timeout_time_);
         for (;;) {
-            if ( nullptr != ( s = try_pop_() ) ) {
-                {
-                    detail::spinlock_lock lk{ splk_producers_ };
-                    waiting_producers_.notify_one();
-                }
+            detail::spinlock_lock slot_lk{ splk_slot_, std::defer_lock };
+            if ( nullptr != ( s = try_pop_( slot_lk) ) ) {
                 // consume value
                 value = std::move( s->value);
-                // notify context
-                s->w.wake();
+                consumed_( s);
                 return channel_op_status::success;
             }
             detail::spinlock_lock lk{ splk_consumers_ };
-- 
2.43.0


From c01d2ba6f3e0818e197d3d0a82bc02d66115f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:23 +0000
Subject: [PATCH 08/24] fix: fiber specific pointer without a value must not
 register null for cleanup

---
 src/context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index 97a45a5..474a495 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -363,7 +363,7 @@ context::set_fss_data( void const * vp,
         } else {
             fss_data_.erase( i);
         }
-    } else {
+    } else if ( nullptr != data) {
         fss_data_.insert(
             std::make_pair(
                 key,
-- 
2.43.0


From 895c1b4a6316f775afe81bc590276648ea6bef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:13 +0000
Subject: [PATCH 09/24] fix: release the fiber specific data of the main fiber
 when its thread ends

---
 include/boost/fiber/context.hpp |  2 ++
 src/context.cpp                 | 13 +++++++++----
 src/scheduler.cpp               |  2 ++
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/boost/fiber/context.hpp b/include/boost/fiber/context.hpp
index 82d8484..0bb103d 100644
--- a/include/boost/fiber/context.hpp
+++ b/include/boost/fiber/context.hpp
@@ -171,6 +171,8 @@ private:
         policy_{ policy } {
     }
 
+    void release_fss_();
+
 public:
     class id {
     private:
diff --git a/src/context.cpp b/src/context.cpp
index 474a495..e1d2e32 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -271,10 +271,7 @@ context::terminate() noexcept {
     wait_queue_.notify_all();
     BOOST_ASSERT( wait_queue_.empty() );
     // release fiber-specific-data
-    for ( fss_data_t::value_type & data : fss_data_) {
-        data.second.do_cleanup();
-    }
-    fss_data_.clear();
+    release_fss_();
     // switch to another context
     return get_scheduler()->terminate( lk, this);
 }
@@ -371,6 +368,14 @@ context::set_fss_data( void const * vp,
     }
 }
 
+void
+context::release_fss_() {
+    for ( fss_data_t::value_type & data : fss_data_) {
+        data.second.do_cleanup();
+    }
+    fss_data_.clear();
+}
+
 void
 context::set_properties( fiber_properties * props) noexcept {
     delete properties_;
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 6635c00..54c6dfd 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -101,6 +101,8 @@ scheduler::~scheduler() {
     BOOST_ASSERT( nullptr != main_ctx_);
     BOOST_ASSERT( nullptr != dispatcher_ctx_.get() );
     BOOST_ASSERT( context::active() == main_ctx_);
+    // release fiber-specific-data of the main-context
+    main_ctx_->release_fss_();
     // signal dispatcher-context termination
     shutdown_ = true;
     // resume pending fibers
-- 
2.43.0


From 6c88e04b8c73182915aefbd63f5a492614194e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 10/24] fix: packaged_task::reset breaks the abandoned shared
 state

A future retrieved before reset() was left waiting for ever, because the
temporary that abandoned the old shared state did not know that its future
had been retrieved.
---
 include/boost/fiber/future/packaged_task.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/fiber/future/packaged_task.hpp b/include/boost/fiber/future/packaged_task.hpp
index 10cef3c..ef2a700 100644
--- a/include/boost/fiber/future/packaged_task.hpp
+++ b/include/boost/fiber/future/packaged_task.hpp
@@ -126,9 +126,9 @@ public:
             throw packaged_task_uninitialized{};
         }
         packaged_task tmp;
-        tmp.task_ = task_;
-        task_ = tmp.task_->reset();
-        obtained_ = false;
+        tmp.task_ = task_->reset();
+        swap( tmp);
+        // tmp abandons the old shared state
     }
 };
 
-- 
2.43.0


From 3ecf5c0beab544791dfa88a6b200886d9a21064e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 11/24] fix: timeouts too long to represent expired at once,
 deadlines on other clocks could be early

sleep_for() and the *_for() functions computed now() + duration with
signed overflow; convert() read the steady clock before the clock of
the time point, so the deadline could be too early, and overflowed for
distant time points.
---
 include/boost/fiber/buffered_channel.hpp      |  6 +--
 include/boost/fiber/condition_variable.hpp    |  4 +-
 include/boost/fiber/detail/convert.hpp        | 44 ++++++++++++++++++-
 include/boost/fiber/operations.hpp            |  2 +-
 include/boost/fiber/recursive_timed_mutex.hpp |  2 +-
 include/boost/fiber/timed_mutex.hpp           |  2 +-
 include/boost/fiber/unbuffered_channel.hpp    |  6 +--
 7 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/include/boost/fiber/buffered_channel.hpp b/include/boost/fiber/buffered_channel.hpp
index b0c14f2..ad568c7 100644
--- a/include/boost/fiber/buffered_channel.hpp
+++ b/include/boost/fiber/buffered_channel.hpp
@@ -191,14 +191,14 @@ public:
     channel_op_status push_wait_for( value_type const& value,
                                      std::chrono::duration< Rep, Period > const& timeout_duration) {
         return push_wait_until( value,
-                                std::chrono::steady_clock::now() + timeout_duration);
+                                detail::convert( timeout_duration));
     }
 
     template< typename Rep, typename Period >
     channel_op_status push_wait_for( value_type && value,
                                      std::chrono::duration< Rep, Period > const& timeout_duration) {
         return push_wait_until( std::forward< value_type >( value),
-                                std::chrono::steady_clock::now() + timeout_duration);
+                                detail::convert( timeout_duration));
     }
 
     template< typename Clock, typename Duration >
@@ -324,7 +324,7 @@ public:
     channel_op_status pop_wait_for( value_type & value,
                                     std::chrono::duration< Rep, Period > const& timeout_duration) {
         return pop_wait_until( value,
-                               std::chrono::steady_clock::now() + timeout_duration);
+                               detail::convert( timeout_duration));
     }
 
     template< typename Clock, typename Duration >
diff --git a/include/boost/fiber/condition_variable.hpp b/include/boost/fiber/condition_variable.hpp
index 2bd8157..1996c0b 100644
--- a/include/boost/fiber/condition_variable.hpp
+++ b/include/boost/fiber/condition_variable.hpp
@@ -130,13 +130,13 @@ public:
     template< typename LockType, typename Rep, typename Period >
     cv_status wait_for( LockType & lt, std::chrono::duration< Rep, Period > const& timeout_duration) {
         return wait_until( lt,
-                           std::chrono::steady_clock::now() + timeout_duration);
+                           detail::convert( timeout_duration));
     }
 
     template< typename LockType, typename Rep, typename Period, typename Pred >
     bool wait_for( LockType & lt, std::chrono::duration< Rep, Period > const& timeout_duration, Pred pred) {
         return wait_until( lt,
-                           std::chrono::steady_clock::now() + timeout_duration,
+                           detail::convert( timeout_duration),
                            pred);
     }
 };
diff --git a/include/boost/fiber/detail/convert.hpp b/include/boost/fiber/detail/convert.hpp
index ba3bbbd..76e7aa6 100644
--- a/include/boost/fiber/detail/convert.hpp
+++ b/include/boost/fiber/detail/convert.hpp
@@ -8,6 +8,8 @@
 #define BOOST_FIBERS_DETAIL_CONVERT_H
 
 #include <chrono>
+#include <cstdint>
+#include <ratio>
 #include <memory>
 
 #include <boost/config.hpp>
@@ -28,10 +30,50 @@ std::chrono::steady_clock::time_point convert(
     return timeout_time;
 }
 
+// clamp duration to the range of std::chrono::steady_clock::duration
+template< typename Rep, typename Period >
+std::chrono::steady_clock::duration clamp(
+        std::chrono::duration< Rep, Period > const& d) {
+    typedef std::chrono::steady_clock::duration             dur_t;
+    typedef std::chrono::duration< std::intmax_t, Period >  limit_t;
+    if ( ! std::ratio_less< Period, dur_t::period >::value) {
+        if ( d.count() > std::chrono::duration_cast< limit_t >( (dur_t::max)() ).count() ) {
+            return (dur_t::max)();
+        }
+        if ( d.count() < Rep( 0) &&
+             d.count() < std::chrono::duration_cast< limit_t >( (dur_t::min)() ).count() ) {
+            return (dur_t::min)();
+        }
+    }
+    return std::chrono::duration_cast< dur_t >( d);
+}
+
+// point in time when the duration has elapsed
+template< typename Rep, typename Period >
+std::chrono::steady_clock::time_point convert(
+        std::chrono::duration< Rep, Period > const& timeout_duration) {
+    std::chrono::steady_clock::duration d = clamp( timeout_duration);
+    std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
+    return d > (std::chrono::steady_clock::time_point::max)() - now
+        ? (std::chrono::steady_clock::time_point::max)()
+        : now + d;
+}
+
 template< typename Clock, typename Duration >
 std::chrono::steady_clock::time_point convert(
         std::chrono::time_point< Clock, Duration > const& timeout_time) {
-    return std::chrono::steady_clock::now() + ( timeout_time - Clock::now() );
+    typedef std::chrono::steady_clock::duration dur_t;
+    // Clock must be read before steady_clock, otherwise the
+    // converted time point might be too early
+    dur_t now = clamp( Clock::now().time_since_epoch() );
+    dur_t tp = clamp( timeout_time.time_since_epoch() );
+    if ( (dur_t::max)() == tp || ( now < dur_t::zero() && tp > (dur_t::max)() + now) ) {
+        return (std::chrono::steady_clock::time_point::max)();
+    }
+    if ( now > dur_t::zero() && tp < (dur_t::min)() + now) {
+        return (std::chrono::steady_clock::time_point::min)();
+    }
+    return convert( tp - now);
 }
 
 }}}
diff --git a/include/boost/fiber/operations.hpp b/include/boost/fiber/operations.hpp
index bc9e52a..51213ee 100644
--- a/include/boost/fiber/operations.hpp
+++ b/include/boost/fiber/operations.hpp
@@ -45,7 +45,7 @@ void sleep_until( std::chrono::time_point< Clock, Duration > const& sleep_time_)
 template< typename Rep, typename Period >
 void sleep_for( std::chrono::duration< Rep, Period > const& timeout_duration) {
     fibers::context * active_ctx = fibers::context::active();
-    active_ctx->wait_until( std::chrono::steady_clock::now() + timeout_duration);
+    active_ctx->wait_until( boost::fibers::detail::convert( timeout_duration));
 }
 
 template< typename PROPS >
diff --git a/include/boost/fiber/recursive_timed_mutex.hpp b/include/boost/fiber/recursive_timed_mutex.hpp
index 96bc927..46b72a4 100644
--- a/include/boost/fiber/recursive_timed_mutex.hpp
+++ b/include/boost/fiber/recursive_timed_mutex.hpp
@@ -71,7 +71,7 @@ public:
 
     template< typename Rep, typename Period >
     bool try_lock_for( std::chrono::duration< Rep, Period > const& timeout_duration) {
-        return try_lock_until_( std::chrono::steady_clock::now() + timeout_duration);
+        return try_lock_until_( detail::convert( timeout_duration));
     }
 
     void unlock();
diff --git a/include/boost/fiber/timed_mutex.hpp b/include/boost/fiber/timed_mutex.hpp
index 3cdb91d..4f202f0 100644
--- a/include/boost/fiber/timed_mutex.hpp
+++ b/include/boost/fiber/timed_mutex.hpp
@@ -65,7 +65,7 @@ public:
 
     template< typename Rep, typename Period >
     bool try_lock_for( std::chrono::duration< Rep, Period > const& timeout_duration) {
-        return try_lock_until_( std::chrono::steady_clock::now() + timeout_duration);
+        return try_lock_until_( detail::convert( timeout_duration));
     }
 
     void unlock();
diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index 6fbb168..07b1c35 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -249,14 +249,14 @@ public:
     channel_op_status push_wait_for( value_type const& value,
                                      std::chrono::duration< Rep, Period > const& timeout_duration) {
         return push_wait_until( value,
-                                std::chrono::steady_clock::now() + timeout_duration);
+                                detail::convert( timeout_duration));
     }
 
     template< typename Rep, typename Period >
     channel_op_status push_wait_for( value_type && value,
                                      std::chrono::duration< Rep, Period > const& timeout_duration) {
         return push_wait_until( std::forward< value_type >( value),
-                                std::chrono::steady_clock::now() + timeout_duration);
+                                detail::convert( timeout_duration));
     }
 
     template< typename Clock, typename Duration >
@@ -403,7 +403,7 @@ public:
     channel_op_status pop_wait_for( value_type & value,
                                     std::chrono::duration< Rep, Period > const& timeout_duration) {
         return pop_wait_until( value,
-                               std::chrono::steady_clock::now() + timeout_duration);
+                               detail::convert( timeout_duration));
     }
 
     template< typename Clock, typename Duration >
-- 
2.43.0


From 64110da72d52df5d83a77955c067cc32ffd20db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 12/24] fix: release the stack if constructing a fiber's
 control structure throws

---
 include/boost/fiber/context.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/boost/fiber/context.hpp b/include/boost/fiber/context.hpp
index 0bb103d..29708d8 100644
--- a/include/boost/fiber/context.hpp
+++ b/include/boost/fiber/context.hpp
@@ -502,14 +502,21 @@ static intrusive_ptr< context > make_worker_context_with_properties( launch poli
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     const std::size_t size = reinterpret_cast< uintptr_t >( storage) - reinterpret_cast< uintptr_t >( stack_bottom);
     // placement new of context on top of fiber's stack
-    return intrusive_ptr< context >{ 
-            new ( storage) context_t{
+    context * ctx = nullptr;
+    try {
+        ctx = new ( storage) context_t{
                 policy,
                 properties,
                 boost::context::preallocated{ storage, size, sctx },
                 std::forward< StackAlloc >( salloc),
                 std::forward< Fn >( fn),
-                std::forward< Arg >( arg) ... } };
+                std::forward< Arg >( arg) ... };
+    } catch (...) {
+        // copying/moving fn or arg failed, salloc is still valid
+        salloc.deallocate( sctx);
+        throw;
+    }
+    return intrusive_ptr< context >{ ctx };
 }
 
 template< typename StackAlloc, typename Fn, typename ... Arg >
-- 
2.43.0


From 888ba66aad81162aef175727a3e7d3ecb8877b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 13/24] fix: replace a thread's scheduling algorithm under the
 lock other threads notify it with

---
 src/scheduler.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 54c6dfd..b158cd0 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -327,7 +327,12 @@ scheduler::set_algo( algo::algorithm::ptr_t algo) noexcept {
     while ( algo_->has_ready_fibers() ) {
         algo->awakened( algo_->pick_next() );
     }
-    algo_ = std::move( algo);
+#if ! defined(BOOST_FIBERS_NO_ATOMICS)
+    // schedule_from_remote() notifies the algorithm from other threads;
+    // the old algorithm is released after the lock
+    detail::spinlock_lock lk{ remote_ready_splk_ };
+#endif
+    algo_.swap( algo);
 }
 
 void
-- 
2.43.0


From 0e3b2850e2b7b5a6a019e474d32004415db33da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 14/24] fix: context_spmc_queue: pop from an empty queue must
 not decrement bottom below zero

---
 include/boost/fiber/detail/context_spmc_queue.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/fiber/detail/context_spmc_queue.hpp b/include/boost/fiber/detail/context_spmc_queue.hpp
index 5f906cf..4c1634c 100644
--- a/include/boost/fiber/detail/context_spmc_queue.hpp
+++ b/include/boost/fiber/detail/context_spmc_queue.hpp
@@ -136,7 +136,13 @@ public:
     }
 
     context * pop() {
-        std::size_t bottom = bottom_.load( std::memory_order_relaxed) - 1;
+        std::size_t bottom = bottom_.load( std::memory_order_relaxed);
+        if ( bottom <= top_.load( std::memory_order_relaxed) ) {
+            // queue is empty (top_ never decreases);
+            // bottom_ must not be decremented below zero
+            return nullptr;
+        }
+        --bottom;
         array * a = array_.load( std::memory_order_relaxed);
         bottom_.store( bottom, std::memory_order_relaxed);
         std::atomic_thread_fence( std::memory_order_seq_cst);
-- 
2.43.0


From 2afdb801fbebd2f89d60b8c3b5a51ea095db7a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 15/24] fix: context_spmc_queue: a thief must not access a
 context before it owns it, publish the grown array

---
 .../boost/fiber/detail/context_spmc_queue.hpp | 40 ++++++++++++++-----
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/include/boost/fiber/detail/context_spmc_queue.hpp b/include/boost/fiber/detail/context_spmc_queue.hpp
index 4c1634c..9f4902d 100644
--- a/include/boost/fiber/detail/context_spmc_queue.hpp
+++ b/include/boost/fiber/detail/context_spmc_queue.hpp
@@ -43,7 +43,9 @@ class context_spmc_queue {
 private:
     class array {
     private:
-        typedef std::atomic< context * >                atomic_type;
+        // a slot holds the address of the context, the lowest bit is set for
+        // a pinned context: a thief must not access a context it does not own
+        typedef std::atomic< std::uintptr_t >           atomic_type;
         typedef atomic_type                             storage_type; 
 
         std::size_t         capacity_;
@@ -54,7 +56,7 @@ private:
             capacity_{ capacity },
             storage_{ new storage_type[capacity_] } {
             for ( std::size_t i = 0; i < capacity_; ++i) {
-                ::new ( static_cast< void * >( std::addressof( storage_[i]) ) ) atomic_type{ nullptr };
+                ::new ( static_cast< void * >( std::addressof( storage_[i]) ) ) atomic_type{ 0 };
             }
         }
 
@@ -69,18 +71,31 @@ private:
             return capacity_;
         }
 
-        void push( std::size_t bottom, context * ctx) noexcept {
+        void push( std::size_t bottom, std::uintptr_t slot) noexcept {
             reinterpret_cast< atomic_type * >(
                 std::addressof( storage_[bottom % capacity_]) )
-                    ->store( ctx, std::memory_order_relaxed);
+                    ->store( slot, std::memory_order_relaxed);
         }
 
-        context * pop( std::size_t top) noexcept {
+        std::uintptr_t pop( std::size_t top) noexcept {
             return reinterpret_cast< atomic_type * >(
                 std::addressof( storage_[top % capacity_]) )
                     ->load( std::memory_order_relaxed);
         }
 
+        static std::uintptr_t to_slot( context * ctx) noexcept {
+            return reinterpret_cast< std::uintptr_t >( ctx) |
+                ( ctx->is_context( type::pinned_context) ? 1 : 0);
+        }
+
+        static context * to_context( std::uintptr_t slot) noexcept {
+            return reinterpret_cast< context * >( slot & ~static_cast< std::uintptr_t >( 1) );
+        }
+
+        static bool is_pinned( std::uintptr_t slot) noexcept {
+            return 0 != ( slot & 1);
+        }
+
         array * resize( std::size_t bottom, std::size_t top) {
             std::unique_ptr< array > tmp{ new array{ 2 * capacity_ } };
             for ( std::size_t i = top; i != bottom; ++i) {
@@ -128,9 +143,9 @@ public:
             array * tmp = a->resize( bottom, top);
             old_arrays_.push_back( a);
             std::swap( a, tmp);
-            array_.store( a, std::memory_order_relaxed);
+            array_.store( a, std::memory_order_release);
         }
-        a->push( bottom, ctx);
+        a->push( bottom, array::to_slot( ctx) );
         std::atomic_thread_fence( std::memory_order_release);
         bottom_.store( bottom + 1, std::memory_order_relaxed);
     }
@@ -150,7 +165,7 @@ public:
         context * ctx = nullptr;
         if ( top <= bottom) {
             // queue is not empty
-            ctx = a->pop( bottom);
+            ctx = array::to_context( a->pop( bottom) );
             BOOST_ASSERT( nullptr != ctx);
             if ( top == bottom) {
                 // last element dequeued
@@ -177,10 +192,11 @@ public:
         if ( top < bottom) {
             // queue is not empty
             array * a = array_.load( std::memory_order_consume);
-            ctx = a->pop( top);
-            BOOST_ASSERT( nullptr != ctx);
+            // the context might be dequeued (and destroyed) by the owner
+            // till top_ has been incremented
+            std::uintptr_t slot = a->pop( top);
             // do not steal pinned context (e.g. main-/dispatcher-context)
-            if ( ctx->is_context( type::pinned_context) ) {
+            if ( array::is_pinned( slot) ) {
                 return nullptr;
             }
             if ( ! top_.compare_exchange_strong( top, top + 1,
@@ -189,6 +205,8 @@ public:
                 // lose the race
                 return nullptr;
             }
+            ctx = array::to_context( slot);
+            BOOST_ASSERT( nullptr != ctx);
         }
         return ctx;
     }
-- 
2.43.0


From a7febae512aea2f6a87e16177bafde9cff05a729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 16/24] fix: futex spinlocks must release what was written
 under the lock when nobody waits

---
 include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp | 2 +-
 include/boost/fiber/detail/spinlock_ttas_futex.hpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
index 172b2b4..1628a8c 100644
--- a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
@@ -125,7 +125,7 @@ public:
     }
 
     void unlock() noexcept {
-        if ( 1 != value_.fetch_sub( 1, std::memory_order_acquire) ) {
+        if ( 1 != value_.fetch_sub( 1, std::memory_order_release) ) {
             value_.store( 0, std::memory_order_release);
             futex_wake( & value_);
         }
diff --git a/include/boost/fiber/detail/spinlock_ttas_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
index f7a2f68..3aefdc1 100644
--- a/include/boost/fiber/detail/spinlock_ttas_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
@@ -116,7 +116,7 @@ public:
     }
 
     void unlock() noexcept {
-        if ( 1 != value_.fetch_sub( 1, std::memory_order_acquire) ) {
+        if ( 1 != value_.fetch_sub( 1, std::memory_order_release) ) {
             value_.store( 0, std::memory_order_release);
             futex_wake( & value_);
         }
-- 
2.43.0


From fedd575f422ba70b36b79420f5f260c7588bee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 17/24] fix: replacing a scheduling algorithm by one that
 shares its queue of ready fibers did not terminate

---
 src/scheduler.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index b158cd0..1509a19 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -324,8 +324,19 @@ scheduler::has_ready_fibers() const noexcept {
 void
 scheduler::set_algo( algo::algorithm::ptr_t algo) noexcept {
     // move remaining context in current scheduler to new one
+    // take all out first: both algorithms might share the queue of ready fibers
+    ready_queue_type ready_queue;
     while ( algo_->has_ready_fibers() ) {
-        algo->awakened( algo_->pick_next() );
+        context * ctx = algo_->pick_next();
+        // another thread might have taken the fiber
+        if ( nullptr != ctx) {
+            ctx->ready_link( ready_queue);
+        }
+    }
+    while ( ! ready_queue.empty() ) {
+        context * ctx = & ready_queue.front();
+        ready_queue.pop_front();
+        algo->awakened( ctx);
     }
 #if ! defined(BOOST_FIBERS_NO_ATOMICS)
     // schedule_from_remote() notifies the algorithm from other threads;
-- 
2.43.0


From 51f5de4b0ac7c0142d61eb128a8df3704a781978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:59 +0000
Subject: [PATCH 18/24] fix: a cleanup function of fiber specific storage that
 suspends its fiber must not hold the fiber's spinlock

---
 src/context.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index e1d2e32..cf6febe 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -263,6 +263,9 @@ context::suspend_with_cc() noexcept {
 
 boost::context::fiber
 context::terminate() noexcept {
+    // release fiber-specific-data
+    // (the cleanup functions might suspend this fiber, hence no lock is held)
+    release_fss_();
     // protect for concurrent access
     std::unique_lock< detail::spinlock > lk{ splk_ };
     // mark as terminated
@@ -270,8 +273,6 @@ context::terminate() noexcept {
     // notify all waiting fibers
     wait_queue_.notify_all();
     BOOST_ASSERT( wait_queue_.empty() );
-    // release fiber-specific-data
-    release_fss_();
     // switch to another context
     return get_scheduler()->terminate( lk, this);
 }
-- 
2.43.0


From ce26217e9d3fcbcbf95754bd4f9b7dde6013c9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 19/24] fix: GPU rendezvous may be destroyed by the waiting
 fiber before its condition variable was notified

---
 include/boost/fiber/cuda/waitfor.hpp | 6 ++++--
 include/boost/fiber/hip/waitfor.hpp  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/fiber/cuda/waitfor.hpp b/include/boost/fiber/cuda/waitfor.hpp
index 262efd9..6150e9a 100644
--- a/include/boost/fiber/cuda/waitfor.hpp
+++ b/include/boost/fiber/cuda/waitfor.hpp
@@ -56,7 +56,8 @@ public:
         st_ = st;
         status_ = status;
         done_ = true;
-        lk.unlock();
+        // as soon as the mutex is released the waiting fiber might return
+        // and destroy this object
         cv_.notify_one();
     }
 
@@ -95,7 +96,8 @@ public:
         stx_.erase( st);
         results_.push_back( std::make_tuple( st, status) );
         if ( stx_.empty() ) {
-            lk.unlock();
+            // as soon as the mutex is released the waiting fiber might return
+            // and destroy this object
             cv_.notify_one();
         }
     }
diff --git a/include/boost/fiber/hip/waitfor.hpp b/include/boost/fiber/hip/waitfor.hpp
index e05099e..3289c90 100644
--- a/include/boost/fiber/hip/waitfor.hpp
+++ b/include/boost/fiber/hip/waitfor.hpp
@@ -56,7 +56,8 @@ public:
         st_ = st;
         status_ = status;
         done_ = true;
-        lk.unlock();
+        // as soon as the mutex is released the waiting fiber might return
+        // and destroy this object
         cv_.notify_one();
     }
 
@@ -95,7 +96,8 @@ public:
         stx_.erase( st);
         results_.push_back( std::make_tuple( st, status) );
         if ( stx_.empty() ) {
-            lk.unlock();
+            // as soon as the mutex is released the waiting fiber might return
+            // and destroy this object
             cv_.notify_one();
         }
     }
-- 
2.43.0


From 8b50db1dba63cb8ed13851afbf332263281e6f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 20/24] fix: GPU rendezvous iterated over the set of streams
 while callbacks modify it

---
 include/boost/fiber/cuda/waitfor.hpp | 5 ++++-
 include/boost/fiber/hip/waitfor.hpp  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/cuda/waitfor.hpp b/include/boost/fiber/cuda/waitfor.hpp
index 6150e9a..e31a8ba 100644
--- a/include/boost/fiber/cuda/waitfor.hpp
+++ b/include/boost/fiber/cuda/waitfor.hpp
@@ -80,7 +80,10 @@ public:
     many_streams_rendezvous( std::initializer_list< cudaStream_t > l) :
             stx_{ l } {
         results_.reserve( stx_.size() );
-        for ( cudaStream_t st : stx_) {
+        // stx_ is modified while the callbacks are registered: by notify() and
+        // if a registration fails
+        std::set< cudaStream_t > const streams{ stx_ };
+        for ( cudaStream_t st : streams) {
             unsigned int flags = 0;
             cudaError_t status = ::cudaStreamAddCallback( st, trampoline< many_streams_rendezvous >, this, flags);
             if ( cudaSuccess != status) {
diff --git a/include/boost/fiber/hip/waitfor.hpp b/include/boost/fiber/hip/waitfor.hpp
index 3289c90..95cb49e 100644
--- a/include/boost/fiber/hip/waitfor.hpp
+++ b/include/boost/fiber/hip/waitfor.hpp
@@ -80,7 +80,10 @@ public:
     many_streams_rendezvous( std::initializer_list< hipStream_t > l) :
             stx_{ l } {
         results_.reserve( stx_.size() );
-        for ( hipStream_t st : stx_) {
+        // stx_ is modified while the callbacks are registered: by notify() and
+        // if a registration fails
+        std::set< hipStream_t > const streams{ stx_ };
+        for ( hipStream_t st : streams) {
             unsigned int flags = 0;
             hipError_t status = ::hipStreamAddCallback( st, trampoline< many_streams_rendezvous >, this, flags);
             if ( hipSuccess != status) {
-- 
2.43.0


From e9cf3b4f5af0f2c8675a44a61863af0c4657c080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:32 +0000
Subject: [PATCH 21/24] fix: work_stealing with a single thread looped forever
 looking for another thread to steal from

---
 src/algo/work_stealing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algo/work_stealing.cpp b/src/algo/work_stealing.cpp
index ae9ece8..a84b504 100644
--- a/src/algo/work_stealing.cpp
+++ b/src/algo/work_stealing.cpp
@@ -62,7 +62,8 @@ work_stealing::pick_next() noexcept {
         if ( ! victim->is_context( type::pinned_context) ) {
             context::active()->attach( victim);
         }
-    } else {
+    } else if ( 1 < thread_count_) {
+        // without another thread there is nobody to steal from
         std::uint32_t id = 0;
         std::size_t count = 0, size = schedulers_.size();
         static thread_local std::minstd_rand generator{ std::random_device{}() };
-- 
2.43.0


From 1278256b484266154e0599dfffece294d3e592c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:55 +0000
Subject: [PATCH 22/24] fix: NUMA work_stealing looped forever on a node with a
 single logical cpu

---
 src/numa/algo/work_stealing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/numa/algo/work_stealing.cpp b/src/numa/algo/work_stealing.cpp
index d3653d6..e6798f9 100644
--- a/src/numa/algo/work_stealing.cpp
+++ b/src/numa/algo/work_stealing.cpp
@@ -119,7 +119,8 @@ work_stealing::pick_next() noexcept {
                 // that belongs to the local NUMA node
                 cpu_id = local_cpus_[local_distribution( generator)];
                 // prevent stealing from own scheduler
-            } while ( cpu_id == cpu_id_);
+                // (the own logical cpu might be the only one of the node)
+            } while ( cpu_id == cpu_id_ && 1 < size);
             // steal context from other scheduler
             // schedulers_[cpu_id] should never contain a nullptr
             BOOST_ASSERT( nullptr != schedulers_[cpu_id]);
-- 
2.43.0


From d0e97b5b821d5e962ca7bbbc3d7e96b271b0abd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:55 +0000
Subject: [PATCH 23/24] fix: NUMA work_stealing dereferenced the end of an
 empty set of logical cpus

---
 src/numa/algo/work_stealing.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/numa/algo/work_stealing.cpp b/src/numa/algo/work_stealing.cpp
index e6798f9..189fc1b 100644
--- a/src/numa/algo/work_stealing.cpp
+++ b/src/numa/algo/work_stealing.cpp
@@ -54,7 +54,10 @@ work_stealing::init_( std::vector< boost::fibers::numa::node > const& topo,
                       std::vector< intrusive_ptr< work_stealing > > & schedulers) {
     std::uint32_t max_cpu_id = 0;
     for ( auto & node : topo) {
-        max_cpu_id = (std::max)( max_cpu_id, * node.logical_cpus.rbegin() );
+        // a node might have memory only
+        if ( ! node.logical_cpus.empty() ) {
+            max_cpu_id = (std::max)( max_cpu_id, * node.logical_cpus.rbegin() );
+        }
     }
     // resize array of schedulers to max. CPU ID, initilized with nullptr
     // CPU ID acts as the index in the scheduler array
-- 
2.43.0


From c226172dff335533d4c5ebde0d4585be8d7a4f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:17 +0000
Subject: [PATCH 24/24] fix: cleanup functions may access the fiber-specific
 pointers of the ending fiber

The values were cleaned up while they were still stored: a cleanup function
that read another pointer of the fiber got a value already destroyed, one that
reset it cleaned it up a second time, and a value it stored could be lost.
---
 src/context.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index cf6febe..f4c44ff 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -371,10 +371,14 @@ context::set_fss_data( void const * vp,
 
 void
 context::release_fss_() {
-    for ( fss_data_t::value_type & data : fss_data_) {
-        data.second.do_cleanup();
+    // a cleanup function might access the fiber-specific data of this fiber:
+    // remove the data before it is cleaned up, until none is left
+    while ( ! fss_data_.empty() ) {
+        fss_data_t::iterator i = fss_data_.begin();
+        fss_data data = i->second;
+        fss_data_.erase( i);
+        data.do_cleanup();
     }
-    fss_data_.clear();
 }
 
 void
-- 
2.43.0

