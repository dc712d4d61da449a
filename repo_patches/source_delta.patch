From 1abed6c2f8cda0731ad7cc5a1985653789671af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 01/28] fix: size the signal array copy by sizeof( Signal ),
 not sizeof( T )

length_signal was computed from the element size, so a resize copied
too few signals for small elements and read past the end of the signal
array for large ones.
---
 raftinc/database.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raftinc/database.tcc b/raftinc/database.tcc
index cf0a446..5bbbdfe 100644
--- a/raftinc/database.tcc
+++ b/raftinc/database.tcc
@@ -43,7 +43,7 @@ template < class T > struct DataBase
 {
     DataBase( const std::size_t max_cap ) : max_cap ( max_cap ),
                                             length_store( sizeof( T ) * max_cap ),
-                                            length_signal( sizeof( T ) * max_cap ),
+                                            length_signal( sizeof( Signal ) * max_cap ),
                                             dynamic_alloc_size( length_store +
                                                                 length_signal )
                                             {}
-- 
2.43.0


From 4ed09d55431eb8cedc549be63fb393720a6d47c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 02/28] fix: re-point the stats call-backs at the new buffer
 after a resize

write_stats and read_stats kept pointing into the buffer that
DataManager::resize had just deleted.
---
 raftinc/ringbuffer.tcc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raftinc/ringbuffer.tcc b/raftinc/ringbuffer.tcc
index 37c814f..53d2594 100644
--- a/raftinc/ringbuffer.tcc
+++ b/raftinc/ringbuffer.tcc
@@ -125,6 +125,8 @@ public:
         {
             (this)->datamanager.resize(
                 new Buffer::Data<T, type>(size, align), exit_alloc);
+            /** the stats call-backs must follow the new buffer **/
+            (this)->init();
         }
         /** else, not resizeable..just return **/
         return;
@@ -188,6 +190,8 @@ public:
         {
             (this)->datamanager.resize(
                 new Buffer::Data<T, type>(size, align), exit_alloc);
+            /** the stats call-backs must follow the new buffer **/
+            (this)->init();
         }
         /** else, not resizeable..just return **/
         return;
-- 
2.43.0


From 0d31f75087c06126d3f2adb9f01b1a79eacce702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 03/28] fix: let local_pop throw the item away when given a
 null pointer

signal_pop() calls local_pop( nullptr, nullptr ) to discard the element
that carries a system signal, as documented; every heap variant asserted
on (or dereferenced) the null pointer instead.
---
 raftinc/ringbufferheap.tcc | 42 ++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 461d3cc..8571811 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -360,12 +360,14 @@ protected:
       {
          *signal = buff_ptr->signal[ read_index ];
       }
-      assert( ptr != nullptr );
-      /** gotta dereference pointer and copy **/
-      T *item( reinterpret_cast< T* >( ptr ) );
-      *item = buff_ptr->store[ read_index ];
-      /** only increment here b/c we're actually reading an item **/
-      (this)->consumer_data.read_stats->bec.count++;
+      if( ptr != nullptr )
+      {
+         /** gotta dereference pointer and copy **/
+         T *item( reinterpret_cast< T* >( ptr ) );
+         *item = buff_ptr->store[ read_index ];
+         /** only increment here b/c we're actually reading an item **/
+         (this)->consumer_data.read_stats->bec.count++;
+      }
       Pointer::inc( buff_ptr->read_pt );
       (this)->datamanager.exitBuffer( dm::pop );
    }
@@ -793,10 +795,14 @@ protected:
       {
          *signal = buff_ptr->signal[ read_index ];
       }
-      assert( ptr != nullptr );
-      /** gotta dereference pointer and copy **/
-      T *item( reinterpret_cast< T* >( ptr ) );
-      *item = buff_ptr->store[ read_index ];
+      if( ptr != nullptr )
+      {
+         /** gotta dereference pointer and copy **/
+         T *item( reinterpret_cast< T* >( ptr ) );
+         *item = buff_ptr->store[ read_index ];
+         /** only increment here b/c we're actually reading an item **/
+         (this)->consumer_data.read_stats->bec.count++;
+      }
       /** 
        * we know the object is inline constructed, 
        * we should inline destruct it to fix bug
@@ -804,8 +810,6 @@ protected:
        * - applying same fix to out-of-band objects
        */
       ( &buff_ptr->store[ read_index ] )->~T();
-      /** only increment here b/c we're actually reading an item **/
-      (this)->consumer_data.read_stats->bec.count++;
       Pointer::inc( buff_ptr->read_pt );
       (this)->datamanager.exitBuffer( dm::pop );
    }
@@ -1267,13 +1271,15 @@ protected:
       {
          *signal = buff_ptr->signal[ read_index ];
       }
-      assert( ptr != nullptr );
-      /** gotta dereference pointer and copy **/
-      T *item( reinterpret_cast< T* >( ptr ) );
       auto *head( reinterpret_cast< T* >( buff_ptr->store[ read_index ] ) );
-      *item = *head;
-      /** only increment here b/c we're actually reading an item **/
-      (this)->consumer_data.read_stats->bec.count++;
+      if( ptr != nullptr )
+      {
+         /** gotta dereference pointer and copy **/
+         T *item( reinterpret_cast< T* >( ptr ) );
+         *item = *head;
+         /** only increment here b/c we're actually reading an item **/
+         (this)->consumer_data.read_stats->bec.count++;
+      }
       Pointer::inc( buff_ptr->read_pt );
       /**
        * fix for bug #76 - jcb 18Nov2018
-- 
2.43.0


From 2f50b03f51a48d97ebaec3780032e110b664e91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 04/28] fix: give peek_range the base of the signal array

autorelease< T, peekrange > indexes both arrays with the absolute slot
number, so handing it &signal[ read index ] applied the read index twice
and read other elements' signals or past the end of the array.
---
 raftinc/ringbufferheap.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 8571811..5cf1673 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -467,7 +467,7 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const std::size_t cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      *sig =  reinterpret_cast< void* >(  buff_ptr->signal );
       *ptr =  buff_ptr->store;
       return;
    }
@@ -909,7 +909,7 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const auto cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      *sig =  reinterpret_cast< void* >(  buff_ptr->signal );
       *ptr =  buff_ptr->store;
       return;
    }
@@ -1396,7 +1396,7 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const auto cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      *sig =  reinterpret_cast< void* >(  buff_ptr->signal );
       *ptr =  buff_ptr->store;
       return;
    }
-- 
2.43.0


From 930245c87ed6d7f2c031a798e5edcd1690c3909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 05/28] fix: allocate one signal per slot for streams over user
 memory

pop, peek and push index signal[] with the slot number, but only a
single Signal was allocated when the buffer is supplied by the user.
---
 raftinc/bufferdata.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 3f06f71..189a0fb 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -63,7 +63,7 @@ template < class T > struct Data< T,
    {
         assert( ptr != nullptr );
         (this)->store  = ptr;
-        (this)->signal = (Signal*)       calloc( 1,
+        (this)->signal = (Signal*)       calloc( max_cap,
                                                  sizeof( Signal ) );
         if( (this)->signal == nullptr )
         {
@@ -208,7 +208,7 @@ template < class T >
    {
         assert( ptr != nullptr );
         (this)->store  = reinterpret_cast< type_t* >( ptr );
-        (this)->signal = (Signal*)       calloc( 1,
+        (this)->signal = (Signal*)       calloc( max_cap,
                                                  sizeof( Signal ) );
         if( (this)->signal == nullptr )
         {
-- 
2.43.0


From 4ea944b1c7bc426e272173961a3509acd106f14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 06/28] fix: deallocate() must destroy the allocated object,
 not the oldest unread one

allocate() constructs the object at the write index; deallocate()
destroyed whatever sits at the read index.
---
 raftinc/ringbufferheap.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 5cf1673..749e85a 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -495,8 +495,8 @@ public:
    virtual void deallocate()
    {
       auto * const buff_ptr( (this)->datamanager.get() );
-      const auto read_index( Pointer::val( buff_ptr->read_pt ) );
-      auto * const ptr = reinterpret_cast< T* >( &( buff_ptr->store[ read_index ] ) );
+      const auto write_index( Pointer::val( buff_ptr->write_pt ) );
+      auto * const ptr = reinterpret_cast< T* >( &( buff_ptr->store[ write_index ] ) );
       /** destruct **/
       ptr->~T();
       (this)->producer_data.allocate_called = false;
-- 
2.43.0


From b64e87bca7f5e4b9d2907d55165c2ab7e265c39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 07/28] fix: withdraw the buffer access before throwing from
 pop, peek and peek_range

The access flag stayed set when a read on a closed stream threw, so a
later resize would have waited for it forever.
---
 raftinc/ringbufferheap.tcc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 749e85a..2a858e6 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -338,6 +338,7 @@ protected:
             }
             else if( (this)->is_invalid() && (this)->size() == 0 )
             {
+               (this)->datamanager.exitBuffer( dm::pop );
                throw ClosedPortAccessException(
                   "Accessing closed port with pop call, exiting!!" );
             }
@@ -394,6 +395,7 @@ protected:
             }
             else if( (this)->is_invalid() && (this)->size() == 0 )
             {
+               (this)->datamanager.exitBuffer( dm::peek );
                throw ClosedPortAccessException(
                   "Accessing closed port with local_peek call, exiting!!" );
             }
@@ -440,11 +442,13 @@ protected:
             }
             else if( (this)->is_invalid() && (this)->size() == 0 )
             {
+               (this)->datamanager.exitBuffer( dm::peek );
                throw ClosedPortAccessException(
                   "Accessing closed port with local_peek_range call, exiting!!" );
             }
             else if( (this)->is_invalid() && (this)->size() < n )
             {
+               (this)->datamanager.exitBuffer( dm::peek );
                throw NoMoreDataException( "Too few items left on closed port, kernel exiting" );
             }
          }
@@ -773,6 +777,7 @@ protected:
             }
             else if( (this)->is_invalid() && (this)->size() == 0 )
             {
+               (this)->datamanager.exitBuffer( dm::pop );
                throw ClosedPortAccessException(
                   "Accessing closed port with pop call, exiting!!" );
             }
@@ -836,6 +841,7 @@ protected:
             }
             else if( (this)->is_invalid() && (this)->size() == 0 )
             {
+               (this)->datamanager.exitBuffer( dm::peek );
                throw ClosedPortAccessException(
                   "Accessing closed port with local_peek call, exiting!!" );
             }
@@ -882,11 +888,13 @@ protected:
             }
             else if( (this)->is_invalid() && (this)->size() == 0 )
             {
+               (this)->datamanager.exitBuffer( dm::peek );
                throw ClosedPortAccessException(
                   "Accessing closed port with local_peek_range call, exiting!!" );
             }
             else if( (this)->is_invalid() && (this)->size() < n )
             {
+               (this)->datamanager.exitBuffer( dm::peek );
                throw NoMoreDataException( "Too few items left on closed port, kernel exiting" );
             }
          }
@@ -1249,6 +1257,7 @@ protected:
             }
             else if( (this)->is_invalid() && (this)->size() == 0 )
             {
+               (this)->datamanager.exitBuffer( dm::pop );
                throw ClosedPortAccessException(
                   "Accessing closed port with pop call, exiting!!" );
             }
@@ -1310,6 +1319,7 @@ protected:
             }
             else if( (this)->is_invalid() && (this)->size() == 0 )
             {
+               (this)->datamanager.exitBuffer( dm::peek );
                throw ClosedPortAccessException(
                   "Accessing closed port with local_peek call, exiting!!" );
             }
-- 
2.43.0


From 0c137c49deda0fecc7a746582d32b4c3ba069aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 08/28] fix: deallocate() also withdraws an allocate_range()
 access

Only the allocate flag was cleared, so after allocate_range() followed
by deallocate() the stream could never be resized again.
---
 raftinc/ringbufferheap.tcc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 2a858e6..fd4fed0 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -55,6 +55,7 @@ public:
        */
       (this)->producer_data.allocate_called = false;
       (this)->datamanager.exitBuffer( dm::allocate );
+      (this)->datamanager.exitBuffer( dm::allocate_range );
    }
 
    /**
@@ -505,6 +506,7 @@ public:
       ptr->~T();
       (this)->producer_data.allocate_called = false;
       (this)->datamanager.exitBuffer( dm::allocate );
+      (this)->datamanager.exitBuffer( dm::allocate_range );
    }
 
     /**
@@ -958,6 +960,7 @@ public:
       delete( ptr );
       (this)->producer_data.allocate_called = false;
       (this)->datamanager.exitBuffer( dm::allocate );
+      (this)->datamanager.exitBuffer( dm::allocate_range );
    }
 
    /**
-- 
2.43.0


From 9e6768b958801dae7f2eb7b0b1027dce7338b383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 09/28] fix: release the storage of an externally allocated
 element when it is popped

local_push allocates the element with new; local_pop only ran its
destructor, leaking the storage of every popped element.
---
 raftinc/ringbufferheap.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index fd4fed0..2077a9a 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -1296,7 +1296,7 @@ protected:
       /**
        * fix for bug #76 - jcb 18Nov2018
        */
-      head->~T();
+      delete( head );
       (this)->datamanager.exitBuffer( dm::pop );
    }
 
-- 
2.43.0


From 23350ddeaf68d24fca417b76d1abdda1341a751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:28 +0000
Subject: [PATCH 10/28] fix: deallocate() without a preceding allocate() must
 do nothing

It destroyed (or deleted) whatever the next free slot happened to
contain; send() and send_range() already return in that case.
---
 raftinc/ringbufferheap.tcc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 2077a9a..a5db2bc 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -46,6 +46,10 @@ public:
 
    virtual void deallocate()
    {
+      if( R_UNLIKELY( ! (this)->producer_data.allocate_called ) )
+      {
+         return;
+      }
       /**
        * at this point nothing has been allocated 
        * externally, and the write pointer hasn't been
@@ -499,6 +503,10 @@ public:
 
    virtual void deallocate()
    {
+      if( R_UNLIKELY( ! (this)->producer_data.allocate_called ) )
+      {
+         return;
+      }
       auto * const buff_ptr( (this)->datamanager.get() );
       const auto write_index( Pointer::val( buff_ptr->write_pt ) );
       auto * const ptr = reinterpret_cast< T* >( &( buff_ptr->store[ write_index ] ) );
@@ -946,6 +954,10 @@ public:
 
    virtual void deallocate()
    {
+      if( R_UNLIKELY( ! (this)->producer_data.allocate_called ) )
+      {
+         return;
+      }
       auto * const buff_ptr( (this)->datamanager.get() );
       const size_t write_index( Pointer::val( buff_ptr->write_pt ) );
       auto *ptr(
-- 
2.43.0


From 840fdedd6c71e3667a4adc42f9f9d6cebbfcd1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:28 +0000
Subject: [PATCH 11/28] fix: keep the suggested element count across a resize
 of external element streams

---
 raftinc/bufferdata.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 189a0fb..0739809 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -300,6 +300,8 @@ template < class T >
         //copy over block stats objects
         (this)->read_stats  = other->read_stats; 
         (this)->write_stats = other->write_stats;
+        /** since we might use this as a min size, make persistent **/
+        (this)->force_resize = other->force_resize;
         
         (this)->thread_access[ 0 ] = other->thread_access[ 0 ]; 
         (this)->thread_access[ 1 ] = other->thread_access[ 1 ];
-- 
2.43.0


From 9c156bee23bd27296867d19ff982ffa1a0b131fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:28 +0000
Subject: [PATCH 12/28] fix: announce signal_peek()'s buffer access so that a
 resize waits for it

It read the read cursor and the signal array without registering, so a
concurrent resize could delete the buffer underneath it.
---
 raftinc/ringbufferheap_abstract.tcc | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/raftinc/ringbufferheap_abstract.tcc b/raftinc/ringbufferheap_abstract.tcc
index b8788a2..93afadc 100644
--- a/raftinc/ringbufferheap_abstract.tcc
+++ b/raftinc/ringbufferheap_abstract.tcc
@@ -249,18 +249,25 @@ protected:
    virtual raft::signal signal_peek()
    {
       /** 
-       * NOTE: normally I'd say we need exclusion here too,
-       * however, since this is a copy and we want this to
-       * be quick since it'll be used quite often in tight
-       * loops I think we'll be okay with getting the current
-       * pointer to the head of the queue and returning the
-       * value.  Logically copying the queue shouldn't effect
-       * this value since the elements all remain in their 
-       * location relative to the start of the queue.
+       * a resize deletes the buffer this reads from, so announce
+       * the access like size() does (dm::size is a counter, the 
+       * consumer might hold dm::peek at this point).
        */
+      for( ;; )
+      {
+         (this)->datamanager.enterBuffer( dm::size );
+         if( (this)->datamanager.notResizing() )
+         {
+            break;
+         }
+         (this)->datamanager.exitBuffer( dm::size );
+         raft::yield();
+      }
       auto * const buff_ptr( (this)->datamanager.get() );
       const size_t read_index( Pointer::val( buff_ptr->read_pt ) );
-      return( buff_ptr->signal[ read_index ] /* make copy */ ); 
+      const raft::signal head( buff_ptr->signal[ read_index ] /* make copy */ );
+      (this)->datamanager.exitBuffer( dm::size );
+      return( head ); 
    }
    /**
     * signal_pop - special function fo rthe scheduler to 
-- 
2.43.0


From b0aef833d4444ee758366dbbbcf4f86da60439e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:02 +0000
Subject: [PATCH 13/28] fix: send_range() of an empty range must not touch the
 signal of an unread element

---
 raftinc/ringbufferheap.tcc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index a5db2bc..4195392 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -98,7 +98,11 @@ public:
       }
       /** should be the end of the write, regardless of which allocate called **/
       const size_t write_index( Pointer::val( (this)->datamanager.get()->write_pt ) );
-      (this)->datamanager.get()->signal[ write_index ] = signal;
+      /** an empty range has no element to carry the signal **/
+      if( R_LIKELY( (this)->producer_data.n_allocated > 0 ) )
+      {
+         (this)->datamanager.get()->signal[ write_index ] = signal;
+      }
       /* only need to inc one more **/
       auto &n_allocated( (this)->producer_data.n_allocated );
       Pointer::incBy( (this)->datamanager.get()->write_pt,
@@ -554,7 +558,11 @@ public:
         auto * const buff_ptr( (this)->datamanager.get() );
         /** should be the end of the write, regardless of which allocate called **/
         const size_t write_index( Pointer::val( buff_ptr->write_pt ) );
-        buff_ptr->signal[ write_index ] = signal;
+        /** an empty range has no element to carry the signal **/
+        if( R_LIKELY( (this)->producer_data.n_allocated > 0 ) )
+        {
+            buff_ptr->signal[ write_index ] = signal;
+        }
         /* only need to inc one more, the rest have already**/
         auto &n_allocated( (this)->producer_data.n_allocated );
         Pointer::incBy( buff_ptr->write_pt,
@@ -1008,7 +1016,11 @@ public:
       if( ! (this)->producer_data.allocate_called ) return;
       /** should be the end of the write, regardless of which allocate called **/
       const size_t write_index( Pointer::val( (this)->datamanager.get()->write_pt ) );
-      (this)->datamanager.get()->signal[ write_index ] = signal;
+      /** an empty range has no element to carry the signal **/
+      if( R_LIKELY( (this)->producer_data.n_allocated > 0 ) )
+      {
+         (this)->datamanager.get()->signal[ write_index ] = signal;
+      }
       auto &n_allocated( (this)->producer_data.n_allocated );
       Pointer::incBy( (this)->datamanager.get()->write_pt,
                       n_allocated );
-- 
2.43.0


From 3dde3cea94c5197e507348f8b449241bcf692cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:20 +0000
Subject: [PATCH 14/28] fix: a refused link leaves the requested buffer size of
 both ports alone

---
 raftinc/mapbase.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raftinc/mapbase.hpp b/raftinc/mapbase.hpp
index afb0864..9593f6e 100644
--- a/raftinc/mapbase.hpp
+++ b/raftinc/mapbase.hpp
@@ -107,7 +107,6 @@ public:
         {
             port_info_a =  &a->output.getPortInfoFor( a_port );
         }
-        port_info_a->fixed_buffer_size = buffer;
         /**
          * START dst port discovery
          */
@@ -130,7 +129,6 @@ public:
         {
             port_info_b = &b->input.getPortInfoFor( b_port );
         }
-        port_info_b->fixed_buffer_size = buffer;
         
         assert( port_info_a != nullptr );
         assert( port_info_b != nullptr );
@@ -138,6 +136,10 @@ public:
         join( *a, a_port, *port_info_a, 
               *b, b_port, *port_info_b );
         
+        /** only once the ports are really joined **/
+        port_info_a->fixed_buffer_size = buffer;
+        port_info_b->fixed_buffer_size = buffer;
+        
         set_order< t >( *port_info_a, *port_info_b ); 
         return( kernel_pair_t( a, b ) );
     }
-- 
2.43.0


From afc6efa512953560fff92bb8e55742cb9af02d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 15/28] fix: composing topology expressions keeps every kernel
 of a nested chain

---
 raftinc/kpair.hpp | 11 +++++++++++
 src/kpair.cpp     | 41 +++++++++++++++++++++++++++++++----------
 2 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/raftinc/kpair.hpp b/raftinc/kpair.hpp
index 2e64b2d..4e5499d 100644
--- a/raftinc/kpair.hpp
+++ b/raftinc/kpair.hpp
@@ -108,6 +108,17 @@ public:
     void setOoO() noexcept;
 
 protected:
+    /**
+     * tail - the last pair of the chain this pair is part of
+     */
+    kpair* tail() noexcept;
+
+    /**
+     * setHead - make first the head of every pair of the
+     * chain this pair is part of
+     */
+    void setHead( kpair * const first ) noexcept;
+
     kpair        *next          = nullptr;
     kpair        *head          = nullptr;
     raft::kernel *src           = nullptr;
diff --git a/src/kpair.cpp b/src/kpair.cpp
index 690efa6..9659a02 100644
--- a/src/kpair.cpp
+++ b/src/kpair.cpp
@@ -38,10 +38,10 @@ kpair::kpair( raft::kernel_wrapper &a,
 kpair::kpair( kpair &a, 
               raft::kernel &b,
               const bool split,
-              const bool join ) : kpair( *(a.dst), b )
+              const bool join ) : kpair( *(a.tail()->dst), b )
 {
-    head        = a.head;
-    a.next  = this;
+    head            = a.head;
+    a.tail()->next  = this;
     split_to    = split;
     join_from   = join;
 }
@@ -59,10 +59,10 @@ kpair::kpair( kpair &a,
 kpair::kpair( raft::kernel &a,
               kpair        &n, 
               const bool split,
-              const bool join ) : kpair( a, *(n.src) )
+              const bool join ) : kpair( a, *(n.head->src) )
 {
-    head        = this;
-    next        = &n;
+    next        = n.head;
+    n.setHead( this );
     split_to    = split;
     join_from   = join;
 }
@@ -76,12 +76,12 @@ kpair::kpair( raft::kernel_wrapper &a,
 kpair::kpair( kpair &a,
               kpair &b, 
               const bool split,
-              const bool join ) : kpair( *(a.dst), *(b.src) )
+              const bool join ) : kpair( *(a.tail()->dst), *(b.head->src) )
 {
     head = a.head;
-    a.next = this;
-    b.head = a.head;
-    next = &b;
+    a.tail()->next = this;
+    next = b.head;
+    b.setHead( a.head );
     split_to  = split;
     join_from = join;
 }
@@ -123,6 +123,27 @@ kpair::kpair( raft::kernel_wrapper &a,
 {
 }
 
+kpair*
+kpair::tail() noexcept
+{
+    auto *last( this );
+    while( last->next != nullptr )
+    {
+        last = last->next;
+    }
+    return( last );
+}
+
+void
+kpair::setHead( kpair * const first ) noexcept
+{
+    for( auto *p( head ); p != nullptr; p = p->next )
+    {
+        p->head = first;
+    }
+    return;
+}
+
 void 
 kpair::setOoO() noexcept
 {
-- 
2.43.0


From f2d1b16257fa8785eba6fa1a19e06f224d9f6c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 16/28] fix: joining onto several input ports duplicates the
 whole chain in front of the join

---
 src/map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.cpp b/src/map.cpp
index 6621cc8..b40c4f0 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -653,7 +653,7 @@ raft::map::inline_dup_join( kernels_t &groups,
                     head_next->dst = dst;
                     joink( head_next );
                     src = dst;
-                    head_next = next;
+                    head_next = head_next->next;
                 }
                 /** now need to link chain to current join **/
                 //src already alloced
-- 
2.43.0


From 74ef4874c0ae66fe858f05ea39a6f6be0e97e11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:20 +0000
Subject: [PATCH 17/28] fix: nested splits of different widths are joined back
 group by group

---
 src/map.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/map.cpp b/src/map.cpp
index b40c4f0..e214612 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -520,6 +520,14 @@ raft::map::inline_join( split_stack_t &split_stack,
                         kernels_t     &temp_groups,
                         kpair * const next )
 {
+    /** 
+     * this split ends here, the kernels made below are put 
+     * together as the split around it (if any) needs them 
+     */
+    split_stack.pop();
+    const std::size_t group_size( 
+        split_stack.empty() ? groups.size() : split_stack.top() 
+    );
     /** need to get the count **/
     std::size_t count( 0 );
     /**
@@ -553,7 +561,7 @@ raft::map::inline_join( split_stack_t &split_stack,
         if( count <= 0 )
         {
             temp_groups.push_back( up_group_t( new group_t() ) );
-            count = split_stack.top();
+            count = group_size;
         }
         if( temp_groups[ 0 ]->size() == 0 )
         {
@@ -577,7 +585,6 @@ raft::map::inline_join( split_stack_t &split_stack,
         }
         count--;
     }
-    split_stack.pop();
 }
 
 
-- 
2.43.0


From bf781ba7b806326dc154c2c749ad4b64c67ed665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:56 +0000
Subject: [PATCH 18/28] fix: split takes only the elements it placed off its
 input stream

---
 raftinc/split.tcc       | 7 ++++---
 raftinc/splitmethod.hpp | 8 +++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/raftinc/split.tcc b/raftinc/split.tcc
index bacb365..ca12089 100644
--- a/raftinc/split.tcc
+++ b/raftinc/split.tcc
@@ -52,10 +52,11 @@ public:
       const auto avail( output_port.size() );
       auto range( output_port.template peek_range< T >( avail ) );
       /** split funtion selects a fifo using the appropriate split method **/
-      if( split_func.send( range, output ) )
+      const auto n_sent( split_func.send( range, output ) );
+      if( n_sent > 0 )
       {
-         /* recycle item */
-         output_port.recycle( avail );
+         /** recycle only the items that were sent, the rest stays queued **/
+         output_port.recycle( n_sent );
       }
       else
       {
diff --git a/raftinc/splitmethod.hpp b/raftinc/splitmethod.hpp
index eaf15f1..8abe7c4 100644
--- a/raftinc/splitmethod.hpp
+++ b/raftinc/splitmethod.hpp
@@ -62,12 +62,14 @@ public:
     * get it working.
     * @param   range - T&, autorelease object
     * @param   outputs - output port list
+    * @return  std::size_t - number of elements of the range that were
+    * sent, counted from its front
     */
    template < class T   /* peek range obj,  */,
               typename std::enable_if<
                        ! std::is_base_of< autoreleasebase,
                                         T >::value >::type* = nullptr >
-      bool send( T &range, Port &outputs )
+      std::size_t send( T &range, Port &outputs )
    {
       auto * const fifo( select_fifo( outputs, sendtype ) );
       if( fifo != nullptr )
@@ -80,11 +82,11 @@ public:
          {
             fifo->push( range[ i ].ele, range[ i ].sig );
          }
-         return( true );
+         return( space_avail );
       }
       else
       {
-         return( false );
+         return( 0 );
       }
    }
 
-- 
2.43.0


From 32582dc3fb5a269336935513f3465e5f416562e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:55 +0000
Subject: [PATCH 19/28] fix: releasing recycled elements never runs past the
 end of the set, remembers elements sent on

---
 src/schedule.cpp | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/schedule.cpp b/src/schedule.cpp
index d72f8f2..345bf17 100644
--- a/src/schedule.cpp
+++ b/src/schedule.cpp
@@ -273,30 +273,20 @@ Schedule::fifo_gc( ptr_map_t * const in,
                    ptr_set_t * const out,
                    ptr_set_t * const peekset )
 {
-    auto in_begin( in->begin() ), in_end( in->end() );
-    auto out_beg( out->begin() ), out_end( out->end() );
-    while( out_beg != out_end )
+    for( auto &recycled : (*in) )
     {
-        if( (*out_beg) != (*in_begin).first )
+        /**
+         * an element which was sent on belongs to the stream it was
+         * sent to, all others are released. An element that was sent 
+         * on but not recycled yet must be remembered until it is.
+         */
+        if( out->erase( recycled.first ) == 0 )
         {
-            void * const ptr = reinterpret_cast< void* >( (*in_begin).first );
-            (*in_begin).second( ptr );
-            ++in_begin;
+            void * const ptr = reinterpret_cast< void* >( recycled.first );
+            recycled.second( ptr );
         }
-        else
-        {
-            ++out_beg;
-            ++in_begin;
-        }
-    }
-    while( in_begin != in_end )
-    {
-            void * const ptr = reinterpret_cast< void* >( (*in_begin).first );
-            (*in_begin).second( ptr );
-            ++in_begin;
     }
     in->clear();
-    out->clear();
     peekset->clear();
     return;
 }
-- 
2.43.0


From 6d0aca136956c158eeb5ef74821c20175615e0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:55 +0000
Subject: [PATCH 20/28] fix: an element looked at is handed on to one stream
 only, others get a copy

---
 raftinc/ringbufferheap.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 4195392..b38b8dd 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -1237,10 +1237,12 @@ protected:
 
          if( (this)->producer_data.out_peek->find(
             reinterpret_cast< std::uintptr_t >( item ) ) != 
-                (this)->producer_data.out_peek->cend() )
+                (this)->producer_data.out_peek->cend() &&
+             /** only the first stream gets the object itself **/
+             (this)->producer_data.out->insert( 
+                reinterpret_cast< std::uintptr_t >( item ) ).second )
          {
             //this was from a previous peek call
-            (this)->producer_data.out->insert( reinterpret_cast< std::uintptr_t >( item ) );
             *b_ptr = item;
          }
          else /** hope we have a move/copy constructor **/
-- 
2.43.0


From 95792553a55c14cad282ed8927fc1f4e30c5a645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:55 +0000
Subject: [PATCH 21/28] fix: a popped element is no longer known as one that
 was looked at

---
 raftinc/ringbufferheap.tcc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index b38b8dd..98bf9fd 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -1319,6 +1319,12 @@ protected:
          (this)->consumer_data.read_stats->bec.count++;
       }
       Pointer::inc( buff_ptr->read_pt );
+      /** the address might be used again, it isn't a peeked object then **/
+      if( (this)->consumer_data.in_peek != nullptr )
+      {
+         (this)->consumer_data.in_peek->erase( 
+            reinterpret_cast< std::uintptr_t >( head ) );
+      }
       /**
        * fix for bug #76 - jcb 18Nov2018
        */
-- 
2.43.0


From c7df36f6b67e2db87a0cf3c880244741de1c09af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:52 +0000
Subject: [PATCH 22/28] fix: two recycled elements with the same address are
 both released

---
 raftinc/ringbufferheap.tcc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 98bf9fd..047d7a1 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -1075,7 +1075,7 @@ protected:
          auto **ptr( reinterpret_cast< void** >( &( buff_ptr->store[ read_index ] ) )
          );
 
-         (this)->consumer_data.in->insert(
+         const bool noted( (this)->consumer_data.in->insert(
             std::make_pair( reinterpret_cast< std::uintptr_t >( *ptr ),
                             []( void * ptr )
                             {
@@ -1088,7 +1088,15 @@ protected:
                                  * no deallocate. - jcb 15 July 2017
                                  */
                                 delete( actual_ptr );
-                            } ) );
+                            } ) ).second );
+         /**
+          * noted before: that one was sent on, released, and this is 
+          * a different object which got the same address.
+          */
+         if( R_UNLIKELY( ! noted ) )
+         {
+            delete( reinterpret_cast< T* >( *ptr ) );
+         }
          Pointer::inc( buff_ptr->read_pt );
          (this)->datamanager.exitBuffer( dm::recycle );
       }while( --range > 0 );
-- 
2.43.0


From 03aa55542bf63561694f26948c3c41dcb8abfbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:57 +0000
Subject: [PATCH 23/28] fix: filereader sends every part of the file once and
 stops after the last chunk

---
 raftinc/fileio.tcc | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/raftinc/fileio.tcc b/raftinc/fileio.tcc
index a1517a1..cb4ca6a 100644
--- a/raftinc/fileio.tcc
+++ b/raftinc/fileio.tcc
@@ -83,14 +83,11 @@ public:
 
       /** get length in bytes **/
       length = st.st_size;
-      if(chunk_offset !=  0 )
-      {
-        iterations = std::ceil( (float) length / (float) ( (chunktype::getChunkSize() - 1) - (chunk_offset - 1) ) );
-      }
-      else
-      {
-        iterations = std::ceil( (float) length / (float)( chunktype::getChunkSize() - 1 ) );
-      }
+      /** bytes read per chunk, and how many of them the next chunk starts with **/
+      const std::int64_t bytes( chunktype::getChunkSize() - 1 );
+      const std::int64_t overlap( chunk_offset != 0 ? chunk_offset - 1 : 0 );
+      iterations = ( length <= bytes ? 1 :
+         ( length - overlap + ( bytes - overlap ) - 1 ) / ( bytes - overlap ) );
    }
 
    virtual raft::kstatus run()
@@ -102,7 +99,7 @@ public:
             auto &chunk( port.template allocate< chunktype  >() );
             if( init )
             {
-               fseek( fp, - chunk_offset , SEEK_CUR );
+               fseek( fp, ( chunk_offset != 0 ? 1 - chunk_offset : 0 ), SEEK_CUR );
             }
             else
             {
@@ -122,7 +119,7 @@ public:
                   raft::eof );
             static_assert( std::is_signed< decltype( iterations ) >::value,
                            "iterations must be a signed type" );
-            if( --iterations < 0 )
+            if( --iterations <= 0 )
             {
                return( raft::stop );
             }
-- 
2.43.0


From e10385e873e70e4ee8fb42fc0f8a540b440f6d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:57 +0000
Subject: [PATCH 24/28] fix: search reports the position of a match in the
 file, not twice the chunk's start more

---
 raftinc/search.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raftinc/search.tcc b/raftinc/search.tcc
index 80f000b..79f89a3 100644
--- a/raftinc/search.tcc
+++ b/raftinc/search.tcc
@@ -65,7 +65,7 @@ public:
                            term.begin(), term.end() );
          if( it != chunk.end() )
          {
-            const std::size_t loc( it.location() + chunk.start_position );
+            const std::size_t loc( it.location() /** from the start of the file **/ );
             const std::size_t end( loc + term_length );
             output[ "0" ].push( std::make_pair( loc, end ) );
             it += 1;
-- 
2.43.0


From 6938511854e5c480f347bad36e21e1c86fdf7187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:57 +0000
Subject: [PATCH 25/28] fix: a copy of a filechunk keeps the chunk's number

---
 raftinc/filechunk.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raftinc/filechunk.tcc b/raftinc/filechunk.tcc
index dcca9a1..f5713c6 100644
--- a/raftinc/filechunk.tcc
+++ b/raftinc/filechunk.tcc
@@ -36,6 +36,7 @@ template < std::size_t size = 65536 > struct filechunk
       std::memcpy( buffer, other.buffer, other.length + 1 /** cp null term **/ );
       start_position = other.start_position;
       length = other.length;
+      index  = other.index;
    }
    
    constexpr filechunk< size >& operator = ( const filechunk< size > &other )
@@ -45,6 +46,7 @@ template < std::size_t size = 65536 > struct filechunk
         std::memcpy( buffer, other.buffer, other.length + 1 /** cp null term **/ );
         start_position = other.start_position;
         length = other.length;
+        index  = other.index;
         return( *this );
    }
 #pragma pack( push, 1 )
-- 
2.43.0


From 09721ffd4070fc9aecc9976ee860b77c769bf895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:23 +0000
Subject: [PATCH 26/28] fix: kernels built over user memory get an id of their
 own

---
 src/kernel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernel.cpp b/src/kernel.cpp
index 64e2010..8a6848a 100644
--- a/src/kernel.cpp
+++ b/src/kernel.cpp
@@ -24,6 +24,7 @@ kernel::kernel( void * const ptr,
    output( this, ptr, nbytes ),
    kernel_id( kernel::kernel_count )
 {
+   kernel::kernel_count++;
 }
 
 
-- 
2.43.0


From 12110059293b77022d21f6cfe1f240eedfb09ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:29 +0000
Subject: [PATCH 27/28] fix: every link has a counter of its own in the dynamic
 allocator

---
 src/dynalloc.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/dynalloc.cpp b/src/dynalloc.cpp
index 8e7bd9f..15939eb 100644
--- a/src/dynalloc.cpp
+++ b/src/dynalloc.cpp
@@ -46,18 +46,12 @@ dynalloc::~dynalloc()
 std::size_t
 dynalloc::hash( PortInfo &a, PortInfo &b )
 {
-   union{
-      std::size_t      all;
-      struct a_and_b{
-         std::uint32_t a;
-         std::uint32_t b;
-      } ab;
-   } u;
-   const auto ta( (std::uint64_t)(& a ) );
-   const auto tb( (std::uint64_t)(& b ) );
-   u.ab.a = ta & 0xffff;
-   u.ab.b = tb & 0xffff;
-   return( u.all );
+   (void) b;
+   /** 
+    * every link has a source port of its own, whose address 
+    * tells it from all others 
+    */
+   return( reinterpret_cast< std::size_t >( &a ) );
 }
 
 
-- 
2.43.0


From b07e27bce4e0ea898f70f0402f9d10afe9a5c999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:07 +0000
Subject: [PATCH 28/28] fix: print remembers how many input ports it has, so
 that copies have as many

---
 raftinc/print.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raftinc/print.tcc b/raftinc/print.tcc
index a36df07..61003b2 100644
--- a/raftinc/print.tcc
+++ b/raftinc/print.tcc
@@ -40,7 +40,8 @@ template< typename T > class printabstract : public raft::kernel,
 {
 public:
     printabstract( const std::size_t n_input_ports = 1 ) : raft::kernel(),
-                                                           raft::printbase()
+                                                           raft::printbase(),
+                                                           input_port_count( n_input_ports )
     {
         using index_type = std::remove_const_t< decltype( n_input_ports ) >;
         for( index_type index( 0 ); index < n_input_ports; index++ )
@@ -61,7 +62,8 @@ public:
     
     printabstract( std::ostream &stream, 
                    const std::size_t n_input_ports = 1 )  : raft::kernel(),
-                                                            raft::printbase()
+                                                            raft::printbase(),
+                                                            input_port_count( n_input_ports )
     {
         using index_type = std::remove_const_t< decltype( n_input_ports ) >;
         for( index_type index( 0 ); index < n_input_ports; index++ )
-- 
2.43.0

