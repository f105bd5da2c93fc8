From 3ddaeec06a2cfa66c557d10248e29638b83cac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 01/38] fix: size the signal array copied on FIFO resize by
 Signal, not by T

length_signal is the number of bytes copyFrom() moves from the old signal
array, which holds max_cap Signal objects. Computing it from sizeof( T )
read and wrote past the arrays for T wider than a Signal, and dropped
signals for narrower T.
---
 raftinc/database.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raftinc/database.tcc b/raftinc/database.tcc
index cf0a446..5bbbdfe 100644
--- a/raftinc/database.tcc
+++ b/raftinc/database.tcc
@@ -43,7 +43,7 @@ template < class T > struct DataBase
 {
     DataBase( const std::size_t max_cap ) : max_cap ( max_cap ),
                                             length_store( sizeof( T ) * max_cap ),
-                                            length_signal( sizeof( T ) * max_cap ),
+                                            length_signal( sizeof( Signal ) * max_cap ),
                                             dynamic_alloc_size( length_store +
                                                                 length_signal )
                                             {}
-- 
2.43.0


From 42b50684588da14f851ecfb47b3a3c66ad4e77f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 02/38] fix: relocate class-type elements on FIFO resize with
 their constructors

Resizing a FIFO copied its elements as raw bytes. For class types that are
not trivially relocatable (std::string, for one) the copy kept pointing
into the freed buffer.
---
 raftinc/bufferdata.tcc | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 3f06f71..e71fd1b 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -27,6 +27,8 @@
 #include <cinttypes>
 #include <iostream>
 #include <type_traits>
+#include <utility>
+#include <new>
 #if defined __APPLE__ || defined __linux
 #include <sys/mman.h>
 #include <shm>
@@ -156,9 +158,7 @@ template < class T > struct Data< T,
         (this)->is_valid = other->is_valid;
 
         /** buffer is already alloc'd, copy **/
-        std::memcpy( (void*)(this)->store /* dst */,
-                     (void*)other->store  /* src */,
-                     other->length_store );
+        (this)->relocate( other );
         
         /** copy signal buff **/
         std::memcpy( (void*)(this)->signal /* dst */,
@@ -189,6 +189,38 @@ template < class T > struct Data< T,
       }
       free( (this)->signal );
    }
+private:
+   /**
+    * relocate - move the contents of the other buffer's store 
+    * to this one. Elements of class type can't be copied as raw 
+    * bytes (e.g., a std::string may well point within itself) so 
+    * these are constructed at the new location, then destroyed at 
+    * the old one.  As with copyFrom, the range of elements within 
+    * the other buffer must be contiguous.
+    * @param   other - DataBase< T >*
+    */
+   template < class U = T,
+              typename std::enable_if< 
+                  inline_class_alloc< U >::value >::type* = nullptr >
+   void relocate( DataBase< T > * const other )
+   {
+        const auto end( Pointer::val( other->write_pt ) );
+        for( auto i( Pointer::val( other->read_pt ) ); i < end; i++ )
+        {
+            new ( &(this)->store[ i ] ) T( std::move( other->store[ i ] ) );
+            other->store[ i ].~T();
+        }
+   }
+   
+   template < class U = T,
+              typename std::enable_if< 
+                  ! inline_class_alloc< U >::value >::type* = nullptr >
+   void relocate( DataBase< T > * const other )
+   {
+        std::memcpy( (void*)(this)->store /* dst */,
+                     (void*)other->store  /* src */,
+                     other->length_store );
+   }
 
 }; /** end heap < Line Size **/
 
-- 
2.43.0


From 17cd94e4d01696f11f24f5e15c0fec48bc4b14c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 03/38] fix: keep the FIFO's blocked statistics across a resize

The producer and consumer keep pointers to these statistics, which lived in
the buffer that a resize deletes.
---
 raftinc/bufferdata.tcc              | 19 -------------------
 raftinc/database.tcc                |  8 --------
 raftinc/fifoabstract.tcc            | 15 +++++++++++----
 raftinc/ringbufferheap_abstract.tcc |  6 +++---
 4 files changed, 14 insertions(+), 34 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index e71fd1b..aeadb1b 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -79,8 +79,6 @@ template < class T > struct Data< T,
         /** allocate read and write pointers **/
         new ( &(this)->read_pt ) Pointer( max_cap );
         new ( &(this)->write_pt) Pointer( max_cap, 1 ); 
-        new ( &(this)->read_stats ) Blocked();
-        new ( &(this)->write_stats ) Blocked();
         (this)->external_alloc = true;
    }
 
@@ -129,8 +127,6 @@ template < class T > struct Data< T,
       /** TODO, see if there are optimizations to be made with sizing and alignment **/
       new ( &(this)->read_pt ) Pointer( max_cap );
       new ( &(this)->write_pt ) Pointer( max_cap ); 
-      new ( &(this)->read_stats ) Blocked();
-      new ( &(this)->write_stats ) Blocked();
    }
   
    /**
@@ -164,10 +160,6 @@ template < class T > struct Data< T,
         std::memcpy( (void*)(this)->signal /* dst */,
                      (void*)other->signal  /* src */,
                      other->length_signal );
-        /** stats objects are still valid, copy the ptrs over **/
-        
-        (this)->read_stats  = other->read_stats; 
-        (this)->write_stats = other->write_stats;
         /** since we might use this as a min size, make persistent **/
         (this)->force_resize = other->force_resize;
         /** everything should be put back together now **/
@@ -254,8 +246,6 @@ template < class T >
         /** allocate read and write pointers **/
         new ( &(this)->read_pt ) Pointer( max_cap );
         new ( &(this)->write_pt ) Pointer( max_cap, 1 ); 
-        new ( &(this)->read_stats ) Blocked();
-        new ( &(this)->write_stats ) Blocked();
         (this)->external_alloc = true;
    }
 
@@ -302,8 +292,6 @@ template < class T >
         /** allocate read and write pointers **/
         new ( &(this)->read_pt ) Pointer( max_cap );
         new ( &(this)->write_pt) Pointer( max_cap ); 
-        new ( &(this)->read_stats ) Blocked();
-        new ( &(this)->write_stats ) Blocked();
    }
    
    virtual void copyFrom( ourtype_t *other )
@@ -329,9 +317,6 @@ template < class T >
         std::memcpy( (void*)(this)->signal /* dst */,
                      (void*)other->signal  /* src */,
                      other->length_signal );
-        //copy over block stats objects
-        (this)->read_stats  = other->read_stats; 
-        (this)->write_stats = other->write_stats;
         
         (this)->thread_access[ 0 ] = other->thread_access[ 0 ]; 
         (this)->thread_access[ 1 ] = other->thread_access[ 1 ];
@@ -413,7 +398,6 @@ template < class T > struct Data< T, Type::SharedMemory > :
                               signal_key.c_str() );
 
             new ( &(this)->write_pt ) Pointer( max_cap ); 
-            new ( &(this)->write_stats ) Blocked();
             
 
             (this)->cookie.producer = 0x1337;
@@ -460,7 +444,6 @@ template < class T > struct Data< T, Type::SharedMemory > :
             assert( (this)->signal != nullptr );
             
             new ( &(this)->read_pt ) Pointer( max_cap );
-            new ( &(this)->read_stats ) Blocked();
             
 
             (this)->cookie.consumer = 0x1337;
@@ -487,13 +470,11 @@ template < class T > struct Data< T, Type::SharedMemory > :
          case( Direction::Producer ):
          {
             delete( &(this)->write_pt ); 
-            delete( &(this)->write_stats );
          }
          break;
          case( Direction::Consumer ):
          { 
             delete( &(this)->read_pt );
-            delete( &(this)->read_stats );
          }
          break;
          default:
diff --git a/raftinc/database.tcc b/raftinc/database.tcc
index 5bbbdfe..36e8fc3 100644
--- a/raftinc/database.tcc
+++ b/raftinc/database.tcc
@@ -23,7 +23,6 @@
 #include "pointer.hpp"
 #include "signal.hpp"
 #include <cstddef>
-#include "blocked.hpp"
 #include "threadaccess.hpp"
 
 namespace raft
@@ -84,13 +83,6 @@ template < class T > struct DataBase
     /** variable set by scheduler, used for shutdown **/
     bool                    is_valid        = true;
     
-    /**
-     * these keep reference over how many read/writes are
-     * blocked. used for dynamic adaptation.
-     */
-    Blocked                 read_stats; 
-    Blocked                 write_stats;
-    
     /** need to force resize, this has the count requested **/
     std::size_t             force_resize    = 0;
 
diff --git a/raftinc/fifoabstract.tcc b/raftinc/fifoabstract.tcc
index 7423514..fc5124c 100644
--- a/raftinc/fifoabstract.tcc
+++ b/raftinc/fifoabstract.tcc
@@ -39,10 +39,8 @@ protected:
 
     inline void init() noexcept
     {
-        auto * const buffer( datamanager.get() );
-        assert( buffer != nullptr );
-        producer_data.write_stats = &buffer->write_stats;
-        consumer_data.read_stats  = &buffer->read_stats;
+        producer_data.write_stats = &write_stats;
+        consumer_data.read_stats  = &read_stats;
     }
 
     struct ALIGN( L1D_CACHE_LINE_SIZE ) {
@@ -76,6 +74,15 @@ protected:
         Blocked                     *read_stats = nullptr;
     } consumer_data;
     
+    /**
+     * these keep reference over how many read/writes are
+     * blocked. used for dynamic adaptation. these belong
+     * to the FIFO and not to the buffer given the buffer is 
+     * replaced (and deleted) on resize.
+     */
+    Blocked                      read_stats;
+    Blocked                      write_stats;
+    
     /** 
      * upgraded the *data structure to be a DataManager
      * object to enable easier and more intuitive dynamic
diff --git a/raftinc/ringbufferheap_abstract.tcc b/raftinc/ringbufferheap_abstract.tcc
index b8788a2..7154f35 100644
--- a/raftinc/ringbufferheap_abstract.tcc
+++ b/raftinc/ringbufferheap_abstract.tcc
@@ -164,7 +164,7 @@ TOP:
    virtual void get_zero_read_stats( Blocked &copy )
    {
       
-      auto &buff_ptr_stats( (this)->datamanager.get()->read_stats.all );
+      auto &buff_ptr_stats( (this)->read_stats.all );
       
       copy.all          = buff_ptr_stats;;
       buff_ptr_stats    = 0;
@@ -178,14 +178,14 @@ TOP:
     */
    virtual void get_zero_write_stats( Blocked &copy )
    {
-      auto &buff_ptr_stats( (this)->datamanager.get()->write_stats.all );
+      auto &buff_ptr_stats( (this)->write_stats.all );
       copy.all       = buff_ptr_stats;
       buff_ptr_stats = 0;
    }
     
     virtual float get_frac_write_blocked()
     {
-        auto &wr_stats( (this)->datamanager.get()->write_stats );
+        auto &wr_stats( (this)->write_stats );
         const auto copy( wr_stats );
         wr_stats.all = 0;
         if( copy.bec.blocked == 0 || copy.bec.count == 0 )
-- 
2.43.0


From 8bf915d301d39c000cf71baaf0caf6bf84c766ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 04/38] fix: make FIFO resize wait for every access to the
 buffer it deletes

The access flags were plain bytes within the buffer being replaced, unordered
with the resizing flag, so a producer or consumer could still write to the
old buffer after it was copied or deleted: elements were lost or corrupted.
invalidate(), is_invalid(), capacity() and space_avail() did not register as
accesses at all.
---
 raftinc/bufferdata.tcc              |  4 ---
 raftinc/database.tcc                |  9 ------
 raftinc/datamanager.tcc             | 29 +++++++++--------
 raftinc/ringbufferheap_abstract.tcc | 50 +++++++++++++++++++++++------
 raftinc/threadaccess.hpp            | 39 +++++++++++-----------
 5 files changed, 75 insertions(+), 56 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index aeadb1b..ccb9cd7 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -163,8 +163,6 @@ template < class T > struct Data< T,
         /** since we might use this as a min size, make persistent **/
         (this)->force_resize = other->force_resize;
         /** everything should be put back together now **/
-        (this)->thread_access[ 0 ] = other->thread_access[ 0 ]; 
-        (this)->thread_access[ 1 ] = other->thread_access[ 1 ];
    }
 
 
@@ -318,8 +316,6 @@ template < class T >
                      (void*)other->signal  /* src */,
                      other->length_signal );
         
-        (this)->thread_access[ 0 ] = other->thread_access[ 0 ]; 
-        (this)->thread_access[ 1 ] = other->thread_access[ 1 ];
         /** everything should be put back together now **/
    }
 
diff --git a/raftinc/database.tcc b/raftinc/database.tcc
index 36e8fc3..d40ab21 100644
--- a/raftinc/database.tcc
+++ b/raftinc/database.tcc
@@ -23,7 +23,6 @@
 #include "pointer.hpp"
 #include "signal.hpp"
 #include <cstddef>
-#include "threadaccess.hpp"
 
 namespace raft
 {
@@ -66,15 +65,7 @@ template < class T > struct DataBase
     const std::size_t       dynamic_alloc_size;
 
 
-    /**
-     * read/write pointer. the thread_access is in 
-     * between as it's well accessed by both just
-     * as frequently as the pointers themselves, 
-     * so we get decent caching behavior out of 
-     * doing it this way. 
-     */
     Pointer                 read_pt;
-    ThreadAccess            thread_access[ 2 ];
     Pointer                 write_pt;
     
     T                       *store          = nullptr;
diff --git a/raftinc/datamanager.tcc b/raftinc/datamanager.tcc
index 65f0a91..1727bbc 100644
--- a/raftinc/datamanager.tcc
+++ b/raftinc/datamanager.tcc
@@ -28,6 +28,7 @@
 
 #include "ringbuffertypes.hpp"
 #include "bufferdata.tcc"
+#include "threadaccess.hpp"
 #include "defs.hpp"
 
 
@@ -51,12 +52,6 @@ public:
       (this)->buffer = buffer;
       /** check to see if buffer is given is resizeable **/
       resizeable     = (  buffer->external_alloc ? false : true ); 
-      /** 
-       * need to set thread access structs, should be two of them, 
-       * one for producer anad other for the consumer. These are 
-       * kept as an array here so, only one ptr.
-       */
-      thread_access = buffer->thread_access;
    }
 
    inline bool is_resizeable() noexcept 
@@ -91,12 +86,12 @@ public:
          assert( checking_size != nullptr );
          for( int i( 0 ); i < 2; i++ )
          {
-            if( thread_access[ i ].whole != 0 )
+            if( thread_access[ i ].any() )
             {
                return( false );
             }
          }
-         if( checking_size->load( std::memory_order_relaxed ) != 0 )
+         if( checking_size->load() != 0 )
          {
             return( false );
          }
@@ -225,12 +220,20 @@ public:
 
 private:
    Buffer::Data< T, B > *buffer              = nullptr; 
-   volatile bool         resizing            =  false;
+   /** 
+    * ordered with the flags in thread_access, each side
+    * sets its own then checks the other's.
+    */
+   std::atomic< bool >   resizing            = { false };
 
    bool                  resizeable          = true;
    
-   /** defined in threadaccess.hpp **/
-   ThreadAccess *thread_access = nullptr;
+   /** 
+    * defined in threadaccess.hpp, one for the producer and the
+    * other for the consumer. These are kept here and not in the
+    * buffer since they have to outlive it on resize.
+    */
+   ThreadAccess thread_access[ 2 ];
   
    std::atomic< std::uint64_t >  checking_size = { 0 };
 
@@ -280,11 +283,11 @@ private:
             /** this one has to be atomic, multiple updaters **/
             if( val == 0 )
             {
-                checking_size->fetch_sub( 1, std::memory_order_relaxed );
+                checking_size->fetch_sub( 1 );
             }
             else
             {
-                checking_size->fetch_add( 1, std::memory_order_relaxed );
+                checking_size->fetch_add( 1 );
             }
          }
          break;
diff --git a/raftinc/ringbufferheap_abstract.tcc b/raftinc/ringbufferheap_abstract.tcc
index 7154f35..d8960e5 100644
--- a/raftinc/ringbufferheap_abstract.tcc
+++ b/raftinc/ringbufferheap_abstract.tcc
@@ -113,8 +113,11 @@ TOP:
     */
    virtual void invalidate()
    {
-      auto * const ptr( (this)->datamanager.get() );
-      ptr->is_valid = false;
+      with_buffer( []( auto &buffer )
+      { 
+         buffer.is_valid = false; 
+         return( true );
+      } );
       return;
    }
    
@@ -127,8 +130,7 @@ TOP:
     */
    virtual bool is_invalid()
    {
-      auto * const ptr( (this)->datamanager.get() );
-      return( ! ptr->is_valid );
+      return( with_buffer( []( auto &buffer ){ return( ! buffer.is_valid ); } ) );
    }
 
 
@@ -140,7 +142,10 @@ TOP:
     */
    virtual std::size_t   space_avail()
    {
-      return( (this)->datamanager.get()->max_cap - size() );
+      return( with_buffer( [ this ]( auto &buffer )
+      { 
+         return( buffer.max_cap - (this)->size() ); 
+      } ) );
    }
   
    /**
@@ -150,7 +155,7 @@ TOP:
     */
    virtual std::size_t   capacity() 
    {
-      return( (this)->datamanager.get()->max_cap );
+      return( with_buffer( []( auto &buffer ){ return( buffer.max_cap ); } ) );
    }
 
    
@@ -205,11 +210,34 @@ TOP:
      */
     virtual std::size_t get_suggested_count()
     {
-        return( (this)->datamanager.get()->force_resize );
+        return( with_buffer( []( auto &buffer ){ return( buffer.force_resize ); } ) );
     }
    
 
 protected:
+   /**
+    * with_buffer - call func with the current buffer, the 
+    * buffer can't be replaced (and deleted) by a resize till 
+    * func returns. Same procedure as size() above.
+    * @param   func - callable, takes reference to the buffer
+    * @return  whatever func returns
+    */
+   template < class F > auto with_buffer( const F &&func )
+   {
+      for( ;; )
+      {
+         (this)->datamanager.enterBuffer( dm::size );
+         if( (this)->datamanager.notResizing() )
+         {
+            const auto ret( func( *(this)->datamanager.get() ) );
+            (this)->datamanager.exitBuffer( dm::size );
+            return( ret );
+         }
+         (this)->datamanager.exitBuffer( dm::size );
+         raft::yield();
+      }
+   }
+
    /**
     * setPtrMap
     */
@@ -258,9 +286,11 @@ protected:
        * this value since the elements all remain in their 
        * location relative to the start of the queue.
        */
-      auto * const buff_ptr( (this)->datamanager.get() );
-      const size_t read_index( Pointer::val( buff_ptr->read_pt ) );
-      return( buff_ptr->signal[ read_index ] /* make copy */ ); 
+      return( with_buffer( []( auto &buffer ) -> raft::signal
+      {
+         const size_t read_index( Pointer::val( buffer.read_pt ) );
+         return( buffer.signal[ read_index ] /* make copy */ ); 
+      } ) );
    }
    /**
     * signal_pop - special function fo rthe scheduler to 
diff --git a/raftinc/threadaccess.hpp b/raftinc/threadaccess.hpp
index 7d6aa29..a3f598a 100644
--- a/raftinc/threadaccess.hpp
+++ b/raftinc/threadaccess.hpp
@@ -19,6 +19,7 @@
  */
 #ifndef RAFTTHREADACCESS_HPP
 #define RAFTTHREADACCESS_HPP  1
+#include <atomic>
 #include <cstdint>
 #include "defs.hpp"
 #include "internaldefs.hpp"
@@ -48,29 +49,27 @@ struct ALIGN( L1D_CACHE_LINE_SIZE ) ThreadAccess
 {
     ThreadAccess() = default;
 
-    constexpr ThreadAccess( const ThreadAccess  &other )
-    {
-        (this)->whole = other.whole;
-    }
-    
-    constexpr ThreadAccess& operator = (const ThreadAccess &other ) noexcept
-    {
-        /** ignore the case of 'this' == other **/
-        (this)->whole = other.whole;
-        return( *this );
-    }
-    
     /** 
-     * technically not needed but this makes debugging
-     * a bit easier. - jcb July 2019
+     * any - true if any flag is set for this thread. 
      */
-    ~ThreadAccess(){ (this)->whole = 0; }
-
-    union
+    bool any() const noexcept
     {
-        std::uint64_t whole = 0;
-        dm::key_t     flag[ 8 ];
-    };
+        for( const auto &f : flag )
+        {
+            if( f.load() != 0 )
+            {
+                return( true );
+            }
+        }
+        return( false );
+    }
+
+    /**
+     * these are written by one thread, and read by the one that
+     * resizes the buffer. Must be ordered with the resizing flag
+     * in datamanager.tcc.
+     */
+    std::atomic< dm::key_t >    flag[ 8 ]   = {};
 
     raft::byte_t    padding[ L1D_CACHE_LINE_SIZE - 8 /** padd to cache line **/ ]   = {};
 };
-- 
2.43.0


From 5e12320e330cf3a25ed54a538d8b6d264bb3cd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 05/38] fix: free externally allocated objects after they are
 popped

pop() ran the destructor of the object but never released its memory.
---
 raftinc/ringbufferheap.tcc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 461d3cc..bf3dbf5 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -1276,9 +1276,17 @@ protected:
       (this)->consumer_data.read_stats->bec.count++;
       Pointer::inc( buff_ptr->read_pt );
       /**
-       * fix for bug #76 - jcb 18Nov2018
+       * fix for bug #76 - jcb 18Nov2018, done with this object
+       * so release its memory too. If it was peeked at before
+       * this then it's no longer there to be sent on.
        */
-      head->~T();
+      if( (this)->consumer_data.in_peek != nullptr )
+      {
+         (this)->consumer_data.in_peek->erase( 
+            reinterpret_cast< ptr_t >( head ) 
+         );
+      }
+      delete( head );
       (this)->datamanager.exitBuffer( dm::pop );
    }
 
-- 
2.43.0


From f8184e49fce2bb916d8a8dc0a011c0bd87617238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 06/38] fix: deallocate() destroys the object allocate() made

For class types held inline it destroyed the object at the head of the
queue, which the consumer had yet to receive.
---
 raftinc/ringbufferheap.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index bf3dbf5..41ce574 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -493,8 +493,8 @@ public:
    virtual void deallocate()
    {
       auto * const buff_ptr( (this)->datamanager.get() );
-      const auto read_index( Pointer::val( buff_ptr->read_pt ) );
-      auto * const ptr = reinterpret_cast< T* >( &( buff_ptr->store[ read_index ] ) );
+      const auto write_index( Pointer::val( buff_ptr->write_pt ) );
+      auto * const ptr = reinterpret_cast< T* >( &( buff_ptr->store[ write_index ] ) );
       /** destruct **/
       ptr->~T();
       (this)->producer_data.allocate_called = false;
-- 
2.43.0


From 15ffee8aec4124d53d5fdba533dbaeec2ae2d961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 07/38] fix: peek_range() returns the signals of the items it
 returns

The autorelease object adds the read pointer to the signal array, which had
already been offset by it, so it read the wrong signal or past the array.
---
 raftinc/ringbufferheap.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 41ce574..bc07622 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -465,7 +465,7 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const std::size_t cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      *sig =  buff_ptr->signal;
       *ptr =  buff_ptr->store;
       return;
    }
@@ -905,7 +905,7 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const auto cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      *sig =  buff_ptr->signal;
       *ptr =  buff_ptr->store;
       return;
    }
@@ -1398,7 +1398,7 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const auto cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      *sig =  buff_ptr->signal;
       *ptr =  buff_ptr->store;
       return;
    }
-- 
2.43.0


From eefb4e2381fa82ca3713d056d81b54a1accd9728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 08/38] fix: allocate a signal for each item of a FIFO over
 existing memory

A single one was allocated, any read of the second item's signal was out of
bounds.
---
 raftinc/bufferdata.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index ccb9cd7..057c90e 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -65,7 +65,7 @@ template < class T > struct Data< T,
    {
         assert( ptr != nullptr );
         (this)->store  = ptr;
-        (this)->signal = (Signal*)       calloc( 1,
+        (this)->signal = (Signal*)       calloc( (this)->max_cap,
                                                  sizeof( Signal ) );
         if( (this)->signal == nullptr )
         {
@@ -230,7 +230,7 @@ template < class T >
    {
         assert( ptr != nullptr );
         (this)->store  = reinterpret_cast< type_t* >( ptr );
-        (this)->signal = (Signal*)       calloc( 1,
+        (this)->signal = (Signal*)       calloc( (this)->max_cap,
                                                  sizeof( Signal ) );
         if( (this)->signal == nullptr )
         {
-- 
2.43.0


From 2e0ad392408dc6ff16216596772588ae5eaf8a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 09/38] fix: split sends every item it recycles

Only as many items as fit in the first output selected were sent, then the
whole range was recycled: the rest were lost.
---
 raftinc/splitmethod.hpp | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/raftinc/splitmethod.hpp b/raftinc/splitmethod.hpp
index eaf15f1..f62d6c9 100644
--- a/raftinc/splitmethod.hpp
+++ b/raftinc/splitmethod.hpp
@@ -69,23 +69,34 @@ public:
                                         T >::value >::type* = nullptr >
       bool send( T &range, Port &outputs )
    {
-      auto * const fifo( select_fifo( outputs, sendtype ) );
-      if( fifo != nullptr )
+      /**
+       * the fifo selected might not have enough space for the 
+       * whole range, the caller recycles all of it so keep 
+       * selecting till everything is sent.
+       */
+      const auto total( range.size() );
+      using index_type = std::remove_const_t<decltype(total)>;
+      index_type i( 0 );
+      while( i < total )
       {
-         const auto space_avail(
-            std::min( fifo->space_avail(), range.size() ) );
-
-         using index_type = std::remove_const_t<decltype(space_avail)>;
-         for( index_type i( 0 ); i < space_avail; i++ )
+         auto * const fifo( select_fifo( outputs, sendtype ) );
+         if( fifo == nullptr )
+         {
+            if( i == 0 )
+            {
+               /** nothing sent **/
+               return( false );
+            }
+            continue;
+         }
+         const auto end( 
+            i + std::min< index_type >( fifo->space_avail(), total - i ) );
+         for( ; i < end; i++ )
          {
             fifo->push( range[ i ].ele, range[ i ].sig );
          }
-         return( true );
-      }
-      else
-      {
-         return( false );
       }
+      return( true );
    }
 
    template < class T /* item */ >
-- 
2.43.0


From 13f27d0bf89a3ee83df150d9457c7c193a61fdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 10/38] fix: keep every kernel of a chain nested in a topology
 expression

`>>' binds tighter than `<=' and `>=', so in a <= b >> c >= d the chain
b >> c is on the right of <=. Only its last pair was looked at, and the
pair attached afterwards overwrote the link to the rest of the chain:
kernels were silently left out of the graph (and their kpair leaked).
---
 raftinc/kpair.hpp | 11 +++++++++++
 src/kpair.cpp     | 40 ++++++++++++++++++++++++++++++----------
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/raftinc/kpair.hpp b/raftinc/kpair.hpp
index 2e64b2d..e06955d 100644
--- a/raftinc/kpair.hpp
+++ b/raftinc/kpair.hpp
@@ -108,6 +108,17 @@ public:
     void setOoO() noexcept;
 
 protected:
+    /**
+     * tail - last pair of the chain that this pair is part of,
+     * i.e., where the next kernel to the right gets attached.
+     */
+    kpair* tail() noexcept;
+    /**
+     * setHead - this pair, and every pair that follows it, 
+     * are now part of the chain that starts with new_head.
+     */
+    void   setHead( kpair * const new_head ) noexcept;
+
     kpair        *next          = nullptr;
     kpair        *head          = nullptr;
     raft::kernel *src           = nullptr;
diff --git a/src/kpair.cpp b/src/kpair.cpp
index 690efa6..77bcc0d 100644
--- a/src/kpair.cpp
+++ b/src/kpair.cpp
@@ -38,10 +38,10 @@ kpair::kpair( raft::kernel_wrapper &a,
 kpair::kpair( kpair &a, 
               raft::kernel &b,
               const bool split,
-              const bool join ) : kpair( *(a.dst), b )
+              const bool join ) : kpair( *(a.tail()->dst), b )
 {
     head        = a.head;
-    a.next  = this;
+    a.tail()->next  = this;
     split_to    = split;
     join_from   = join;
 }
@@ -59,10 +59,10 @@ kpair::kpair( kpair &a,
 kpair::kpair( raft::kernel &a,
               kpair        &n, 
               const bool split,
-              const bool join ) : kpair( a, *(n.src) )
+              const bool join ) : kpair( a, *(n.head->src) )
 {
-    head        = this;
-    next        = &n;
+    next        = n.head;
+    setHead( this );
     split_to    = split;
     join_from   = join;
 }
@@ -76,12 +76,11 @@ kpair::kpair( raft::kernel_wrapper &a,
 kpair::kpair( kpair &a,
               kpair &b, 
               const bool split,
-              const bool join ) : kpair( *(a.dst), *(b.src) )
+              const bool join ) : kpair( *(a.tail()->dst), *(b.head->src) )
 {
-    head = a.head;
-    a.next = this;
-    b.head = a.head;
-    next = &b;
+    a.tail()->next = this;
+    next = b.head;
+    setHead( a.head );
     split_to  = split;
     join_from = join;
 }
@@ -123,6 +122,27 @@ kpair::kpair( raft::kernel_wrapper &a,
 {
 }
 
+kpair*
+kpair::tail() noexcept
+{
+    auto *last( this );
+    while( last->next != nullptr )
+    {
+        last = last->next;
+    }
+    return( last );
+}
+
+void
+kpair::setHead( kpair * const new_head ) noexcept
+{
+    for( auto *pair( this ); pair != nullptr; pair = pair->next )
+    {
+        pair->head = new_head;
+    }
+    return;
+}
+
 void 
 kpair::setOoO() noexcept
 {
-- 
2.43.0


From 654d381d3e38110f1e19e404e18b6879bfd7ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 11/38] fix: clone every kernel of a chain that >= duplicates

The loop went from the head of the chain straight to the join, so for
a >> b >> c >= join each duplicate after the first was only a >> b.
---
 src/map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.cpp b/src/map.cpp
index 6621cc8..b40c4f0 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -653,7 +653,7 @@ raft::map::inline_dup_join( kernels_t &groups,
                     head_next->dst = dst;
                     joink( head_next );
                     src = dst;
-                    head_next = next;
+                    head_next = head_next->next;
                 }
                 /** now need to link chain to current join **/
                 //src already alloced
-- 
2.43.0


From 703e8be4f33312eac3c76dee25c6304e8079f90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 12/38] fix: return the head of a joined chain as its first
 source

For ( a >> b ) >= join the returned sources were b and the clones of a,
instead of a and its clones.
---
 src/map.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/map.cpp b/src/map.cpp
index b40c4f0..856c6e5 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -611,6 +611,11 @@ raft::map::inline_dup_join( kernels_t &groups,
      *   to have the name set so that we don't throw any 
      *   exceptions. -jcb
      */
+    /** 
+     * the sources are those of the whole chain, gp has the last
+     * kernel of it till now.
+     */
+    gp->front() = next->head->src;
     for( auto port_it( next->dst->input.begin() );
         port_it != next->dst->input.end(); ++port_it )
     {
-- 
2.43.0


From 861418f8449ab26022d40c91557e2eb025c8ab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 13/38] fix: range() stays within the vector it returns

It wrote one element past the end for every range, and for descending
unsigned ranges that end at zero nothing at all was filled in.
---
 raftinc/utility.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/raftinc/utility.hpp b/raftinc/utility.hpp
index 20eb7d5..cbb7b19 100644
--- a/raftinc/utility.hpp
+++ b/raftinc/utility.hpp
@@ -65,11 +65,9 @@ range( const A a,
   {
      const auto cap( (b - a + delta) / delta );
      common_v_t< A, B > out( cap );
-     auto index( 0 );
-     for( common_t< A, B > i( a ); 
-      std::islessequal( i, b + delta ); i += delta, index++ )
+     for( std::size_t index( 0 ); index < out.size(); index++ )
      {
-        out[ index ] = i;
+        out[ index ] = a + ( index * delta );
      }
      return( std::move( out ) );
   }
@@ -77,11 +75,9 @@ range( const A a,
   {
      const auto cap( (a - b + delta ) / delta );
      common_v_t< A, B > out( cap );
-     auto index( 0 );
-     for( common_t< A, B > i( a ); 
-      std::isgreaterequal( i, b - delta ); i -= delta, index++ )
+     for( std::size_t index( 0 ); index < out.size(); index++ )
      {
-        out[ index ] = i;
+        out[ index ] = a - ( index * delta );
      }
      return( std::move( out ) );
   }
-- 
2.43.0


From 58763f3f9ea8c877c3d9597eead126c0d00a3782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 14/38] fix: free the message of an exception

The copy that strdup() makes was never freed.
---
 raftinc/raftexception.hpp |  2 +-
 src/raftexception.cpp     | 18 ++----------------
 2 files changed, 3 insertions(+), 17 deletions(-)

diff --git a/raftinc/raftexception.hpp b/raftinc/raftexception.hpp
index 5454ca8..c7427f0 100644
--- a/raftinc/raftexception.hpp
+++ b/raftinc/raftexception.hpp
@@ -30,7 +30,7 @@ public:
    
     virtual const char* what() const noexcept;
 private:
-    const char *message = nullptr;
+    const std::string message;
 };
 
 /** 
diff --git a/src/raftexception.cpp b/src/raftexception.cpp
index aa40faa..fea7a37 100644
--- a/src/raftexception.cpp
+++ b/src/raftexception.cpp
@@ -19,29 +19,15 @@
  */
 
 #include <utility>
-#include <cassert>
-#include <cstring>
 #include "raftexception.hpp"
 
 RaftException::RaftException( const std::string message ) : 
-    message( 
-#if (defined _WIN64 ) || (defined _WIN32) 
-    /**
-     * fix for warning C4996: 'strdup': The POSIX name for this item is
-     * a bit annoying given it is a POSIX function, but this is the best
-     * we can do, see: https://bit.ly/2TH0Jci
-     */
-    _strdup( message.c_str() )
-#else //everybody else
-    strdup( message.c_str() ) 
-#endif
-    )
+    message( message )
 {
 }
 
 const char*
 RaftException::what() const noexcept
 {
-    assert( message != nullptr );
-    return( message );
+    return( message.c_str() );
 }
-- 
2.43.0


From ce4d022f870d71d154967f9af2eaef4ff5ffe700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 15/38] fix: read a file to its end, and mark its last chunk

The number of chunks was underestimated when chunks overlap, so the end
of a file of more than a few dozen overlapping chunks was never read.
The eof signal was put on the chunk before the last one, as the count
was compared as unsigned.
---
 raftinc/fileio.tcc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/raftinc/fileio.tcc b/raftinc/fileio.tcc
index a1517a1..1de060c 100644
--- a/raftinc/fileio.tcc
+++ b/raftinc/fileio.tcc
@@ -83,13 +83,18 @@ public:
 
       /** get length in bytes **/
       length = st.st_size;
-      if(chunk_offset !=  0 )
+      /**
+       * each chunk after the first one starts chunk_offset bytes before 
+       * the end of the one before it. There is always at least one chunk, 
+       * even if the file is empty.
+       */
+      const std::int64_t overlap( chunk_offset );
+      const std::int64_t step( 
+         static_cast< std::int64_t >( chunktype::getChunkSize() - 1 ) - overlap );
+      iterations = ( length - overlap + ( step - 1 ) ) / step;
+      if( iterations < 1 )
       {
-        iterations = std::ceil( (float) length / (float) ( (chunktype::getChunkSize() - 1) - (chunk_offset - 1) ) );
-      }
-      else
-      {
-        iterations = std::ceil( (float) length / (float)( chunktype::getChunkSize() - 1 ) );
+         iterations = 1;
       }
    }
 
@@ -117,12 +122,12 @@ public:
             chunk.buffer[ num_read ] = '\0';
             chunk.length = num_read;
             port.send(
-               ( iterations - output.count() /* num ports */ ) > 0 ?
+               ( iterations - static_cast< std::int64_t >( output.count() ) /* num ports */ ) > 0 ?
                   raft::none :
                   raft::eof );
             static_assert( std::is_signed< decltype( iterations ) >::value,
                            "iterations must be a signed type" );
-            if( --iterations < 0 )
+            if( --iterations <= 0 )
             {
                return( raft::stop );
             }
-- 
2.43.0


From 466dfc5265cf11cdfc4bb3d6528e5f652310413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 16/38] fix: close the file that a filereader opened

---
 raftinc/fileio.tcc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/raftinc/fileio.tcc b/raftinc/fileio.tcc
index 1de060c..72bf66d 100644
--- a/raftinc/fileio.tcc
+++ b/raftinc/fileio.tcc
@@ -98,6 +98,11 @@ public:
       }
    }
 
+   virtual ~filereader()
+   {
+      std::fclose( fp );
+   }
+
    virtual raft::kstatus run()
    {
       for( auto &port : output )
-- 
2.43.0


From 8846a40c73a4831cec470df089467c7e0d257f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 17/38] fix: search counts the position of the chunk once

location() already has it, so every match after the first chunk was
reported at the wrong position.
---
 raftinc/search.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raftinc/search.tcc b/raftinc/search.tcc
index 80f000b..dd3d348 100644
--- a/raftinc/search.tcc
+++ b/raftinc/search.tcc
@@ -65,7 +65,7 @@ public:
                            term.begin(), term.end() );
          if( it != chunk.end() )
          {
-            const std::size_t loc( it.location() + chunk.start_position );
+            const std::size_t loc( it.location() );
             const std::size_t end( loc + term_length );
             output[ "0" ].push( std::make_pair( loc, end ) );
             it += 1;
-- 
2.43.0


From 92c8a1e611a736a67a0fba565cb551808eabbf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 18/38] fix: copy the index of a file chunk with the rest of it

---
 raftinc/filechunk.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raftinc/filechunk.tcc b/raftinc/filechunk.tcc
index dcca9a1..f5713c6 100644
--- a/raftinc/filechunk.tcc
+++ b/raftinc/filechunk.tcc
@@ -36,6 +36,7 @@ template < std::size_t size = 65536 > struct filechunk
       std::memcpy( buffer, other.buffer, other.length + 1 /** cp null term **/ );
       start_position = other.start_position;
       length = other.length;
+      index  = other.index;
    }
    
    constexpr filechunk< size >& operator = ( const filechunk< size > &other )
@@ -45,6 +46,7 @@ template < std::size_t size = 65536 > struct filechunk
         std::memcpy( buffer, other.buffer, other.length + 1 /** cp null term **/ );
         start_position = other.start_position;
         length = other.length;
+        index  = other.index;
         return( *this );
    }
 #pragma pack( push, 1 )
-- 
2.43.0


From dfde4e3c4e48441deb28dc6316da60b8b339f551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 19/38] fix: count kernels over existing memory too

Such a kernel had the same id as the next kernel made, and the two were
one node of the graph that make_dot writes.
---
 src/kernel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernel.cpp b/src/kernel.cpp
index 64e2010..8a6848a 100644
--- a/src/kernel.cpp
+++ b/src/kernel.cpp
@@ -24,6 +24,7 @@ kernel::kernel( void * const ptr,
    output( this, ptr, nbytes ),
    kernel_id( kernel::kernel_count )
 {
+   kernel::kernel_count++;
 }
 
 
-- 
2.43.0


From 8c356a9cbf693bd0671d5196d0ae1ad6845554cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 20/38] fix: hand the core of a kernel to its thread before the
 thread starts

---
 raftinc/simpleschedule.hpp | 13 +++++++++----
 src/simpleschedule.cpp     |  4 ++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/raftinc/simpleschedule.hpp b/raftinc/simpleschedule.hpp
index a0171d8..33a7c1c 100644
--- a/raftinc/simpleschedule.hpp
+++ b/raftinc/simpleschedule.hpp
@@ -46,8 +46,10 @@ protected:
    struct thread_data
    {
       constexpr thread_data( raft::kernel * const k,
-                             bool *fin ) : k( k ),
-                                           finished( fin ){}
+                             bool *fin,
+                             const core_id_t core ) : k( k ),
+                                                      finished( fin ),
+                                                      loc( core ){}
 
       raft::kernel *k         = nullptr;
       bool         *finished  = nullptr;
@@ -56,8 +58,11 @@ protected:
    
    struct thread_info_t
    {
-      thread_info_t( raft::kernel * const kernel ) : data( kernel, 
-                                                           &finished ),
+      /** data must be complete before th starts, th reads it **/
+      thread_info_t( raft::kernel * const kernel,
+                     const core_id_t core ) : data( kernel, 
+                                                    &finished,
+                                                    core ),
                                      th( simple_run,
                                          reinterpret_cast< void* >( &data ) )
       {
diff --git a/src/simpleschedule.cpp b/src/simpleschedule.cpp
index c26d164..e29138b 100644
--- a/src/simpleschedule.cpp
+++ b/src/simpleschedule.cpp
@@ -123,8 +123,8 @@ simple_schedule::handleSchedule( raft::kernel * const kernel )
       /** 
        * TODO: lets add the affinity dynamically here
        */
-      auto * const th_info( new thread_info_t( kernel ) );
-      th_info->data.loc = kernel->getCoreAssignment();
+      auto * const th_info( 
+         new thread_info_t( kernel, kernel->getCoreAssignment() ) );
 
       /** 
        * thread function takes a reference back to the scheduler
-- 
2.43.0


From ab168ce00a2d038fc2cc26ae84332afd5518d31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:53 +0000
Subject: [PATCH 21/38] fix: count each element when the collector pairs
 forwarded with recycled ones

The set of forwarded and the map of recycled pointers kept each address once. If an
object is forwarded, freed downstream, and its address used for another element within
the same run of the kernel, then recycling that one was taken for the first and leaked it.
---
 raftinc/defs.hpp           | 9 +++++++--
 raftinc/ringbufferheap.tcc | 7 ++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/raftinc/defs.hpp b/raftinc/defs.hpp
index 21df792..ba5ad56 100644
--- a/raftinc/defs.hpp
+++ b/raftinc/defs.hpp
@@ -116,9 +116,14 @@ namespace raft
 template < typename T > 
     using set_t = std::set< T >;
 
-using ptr_set_t = set_t< std::uintptr_t >;
+/** 
+ * multi, since an address can come back within a single run: an
+ * object that is passed on may be freed downstream, and the memory
+ * used for another one before the run is over.
+ */
+using ptr_set_t = std::multiset< std::uintptr_t >;
 using recyclefunc_t = std::function< void( void * ) >;
-using ptr_map_t = std::map< std::uintptr_t, recyclefunc_t >;
+using ptr_map_t = std::multimap< std::uintptr_t, recyclefunc_t >;
 using ptr_t = std::uintptr_t;
 
 using core_id_t = std::int64_t;
diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index bc07622..9789d34 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -1343,7 +1343,12 @@ protected:
                       sizeof( T ) < sizeof( std::uintptr_t ) << 7 ?
                       sizeof( T ) : sizeof( std::uintptr_t ) << 7
                       >( **real_ptr );
-      (this)->consumer_data.in_peek->insert( reinterpret_cast< ptr_t >( **real_ptr ) );
+      const auto peeked( reinterpret_cast< ptr_t >( **real_ptr ) );
+      auto &in_peek( *(this)->consumer_data.in_peek );
+      if( in_peek.find( peeked ) == in_peek.cend() )
+      {
+         in_peek.insert( peeked );
+      }
       return;
       /**
        * exitBuffer() called when recycle is called, can't be sure the
-- 
2.43.0


From 9a1bba7dfa2aefbcee8a1f6e209890e89b5b2253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:53 +0000
Subject: [PATCH 22/38] fix: forget a peeked object when it is forwarded

Once it was freed downstream, another object at its address that is pushed in the same run
was stored by reference instead of being copied, and then freed twice.
---
 raftinc/ringbufferheap.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 9789d34..2d9c39c 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -1202,6 +1202,8 @@ protected:
          {
             //this was from a previous peek call
             (this)->producer_data.out->insert( reinterpret_cast< std::uintptr_t >( item ) );
+            /** it belongs to the next kernel now, which may free it at any time **/
+            (this)->producer_data.out_peek->erase( reinterpret_cast< std::uintptr_t >( item ) );
             *b_ptr = item;
          }
          else /** hope we have a move/copy constructor **/
-- 
2.43.0


From 7644cc9171b00c6163c004a31eae78091703fdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:11 +0000
Subject: [PATCH 23/38] fix: traverse past ports that are not linked

---
 src/graphtools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graphtools.cpp b/src/graphtools.cpp
index ebec290..d9323dc 100644
--- a/src/graphtools.cpp
+++ b/src/graphtools.cpp
@@ -135,7 +135,8 @@ GraphTools::__BFS( std::queue< raft::kernel* > &queue,
             throw PortException( ss.str() );
          }
          /** if the dst kernel hasn't been visited, visit it **/
-         if( visited_set.find( source.other_kernel ) == visited_set.end() )
+         if( source.other_kernel != nullptr &&
+             visited_set.find( source.other_kernel ) == visited_set.end() )
          {
             queue.push( source.other_kernel );
             visited_set.insert( source.other_kernel );
-- 
2.43.0


From c3b06fba4f37c9fb1322db5a9c54fdd7271cbdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:11 +0000
Subject: [PATCH 24/38] fix: visit a kernel once that is listed twice as a
 source of a traversal

---
 src/graphtools.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/graphtools.cpp b/src/graphtools.cpp
index d9323dc..f026ac5 100644
--- a/src/graphtools.cpp
+++ b/src/graphtools.cpp
@@ -64,8 +64,11 @@ GraphTools::BFS( std::vector< raft::kernel* > &source_kernels,
                   source_kernels.end(),
                   [&]( raft::kernel *k )
                   {
-                     queue.push( k );
-                     visited_set.insert( k );
+                     /** a list might hold the same kernel more than once **/
+                     if( visited_set.insert( k ).second )
+                     {
+                        queue.push( k );
+                     }
                   } );
    GraphTools::__BFS( queue, visited_set, func, data, connected_error );
 }
-- 
2.43.0


From b408ed3fd9e2935cdd46003247cd0acd426bc41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 25/38] fix: group joined kernels by the split around the one
 that is joined

---
 src/map.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/map.cpp b/src/map.cpp
index 856c6e5..a67ff4a 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -520,6 +520,15 @@ raft::map::inline_join( split_stack_t &split_stack,
                         kernels_t     &temp_groups,
                         kpair * const next )
 {
+    /** 
+     * each group (one per kernel that was split) is now joined to one
+     * kernel, these are grouped like the kernels that were split, i.e., 
+     * by the out-edges of the split around this one.
+     */
+    split_stack.pop();
+    const std::size_t group_size( 
+        split_stack.empty() ? groups.size() : split_stack.top() 
+    );
     /** need to get the count **/
     std::size_t count( 0 );
     /**
@@ -553,7 +562,7 @@ raft::map::inline_join( split_stack_t &split_stack,
         if( count <= 0 )
         {
             temp_groups.push_back( up_group_t( new group_t() ) );
-            count = split_stack.top();
+            count = group_size;
         }
         if( temp_groups[ 0 ]->size() == 0 )
         {
@@ -577,7 +586,6 @@ raft::map::inline_join( split_stack_t &split_stack,
         }
         count--;
     }
-    split_stack.pop();
 }
 
 
-- 
2.43.0


From 80a7d0c3a96e09f32579929f201609aa7ad11715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:34 +0000
Subject: [PATCH 26/38] fix: keep the buffer size of a link when another one to
 its ports is rejected

---
 raftinc/mapbase.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raftinc/mapbase.hpp b/raftinc/mapbase.hpp
index afb0864..266aace 100644
--- a/raftinc/mapbase.hpp
+++ b/raftinc/mapbase.hpp
@@ -107,7 +107,6 @@ public:
         {
             port_info_a =  &a->output.getPortInfoFor( a_port );
         }
-        port_info_a->fixed_buffer_size = buffer;
         /**
          * START dst port discovery
          */
@@ -130,7 +129,6 @@ public:
         {
             port_info_b = &b->input.getPortInfoFor( b_port );
         }
-        port_info_b->fixed_buffer_size = buffer;
         
         assert( port_info_a != nullptr );
         assert( port_info_b != nullptr );
@@ -138,6 +136,10 @@ public:
         join( *a, a_port, *port_info_a, 
               *b, b_port, *port_info_b );
         
+        /** not before it is sure that the ports can be joined **/
+        port_info_a->fixed_buffer_size = buffer;
+        port_info_b->fixed_buffer_size = buffer;
+        
         set_order< t >( *port_info_a, *port_info_b ); 
         return( kernel_pair_t( a, b ) );
     }
-- 
2.43.0


From c6072514f33da0641fd68602399c407523bb6525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 27/38] fix: free the chain of a rejected expression, and the
 kernels made for it

---
 src/map.cpp | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/map.cpp b/src/map.cpp
index a67ff4a..426451a 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -282,8 +282,33 @@ raft::map::operator += ( kpair &p )
      */
     groups.back()->emplace_back( next->src );
 
-    /** hold on to these for a bit so we can back track if needed **/
-    std::vector< kpair* > kpair_store;
+    /** 
+     * hold on to the pairs for a bit so we can back track if needed, 
+     * release all of them at the end...also if the chain is rejected
+     * half way, then the map owns the kernels that were made for the 
+     * rest of it too.
+     */
+    struct pair_keeper_t
+    {
+        MapBase &map;
+        kpair   *pair;
+        ~pair_keeper_t()
+        {
+            while( pair != nullptr )
+            {
+                auto * const temp_kpair( pair );
+                pair = pair->next;
+                for( auto * const k : { temp_kpair->src, temp_kpair->dst } )
+                {
+                    if( k->internal_alloc )
+                    {
+                        map.internally_created_kernels += k;
+                    }
+                }
+                delete( temp_kpair );
+            }
+        }
+    } pair_keeper{ *this, next };
 
     /** loop over chain **/
     while( next != nullptr )
@@ -362,9 +387,7 @@ raft::map::operator += ( kpair &p )
         /** now old dst (in temp_groups) become new sources **/
         groups = std::move( temp_groups );
         
-        kpair * const temp_kpair = next;
         next = next->next;
-        kpair_store.emplace_back( temp_kpair );
     }
     
     /** 
@@ -386,11 +409,6 @@ raft::map::operator += ( kpair &p )
     
     
     
-    for( auto *ptr : kpair_store )
-    {
-        delete( ptr );
-    }
-
     /**
      * TODO, need to get the kernel_pair_t to 
      * return the full list of kernels. Basically
-- 
2.43.0


From bb14505501fbbe244adfbaabdf09a1aa7ef3a35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:48 +0000
Subject: [PATCH 28/38] fix: read_each reads every element of a single pass
 range

---
 raftinc/readeach.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raftinc/readeach.tcc b/raftinc/readeach.tcc
index bb3d6fb..52f7929 100644
--- a/raftinc/readeach.tcc
+++ b/raftinc/readeach.tcc
@@ -54,11 +54,11 @@ public:
 
     virtual raft::kstatus run()
     {
-        for( auto it( begin ); it != end; ++it )
+        /** one iterator only, the range might be single pass **/
+        for( ; begin != end; ++begin )
         {
             auto val( output[ "0" ].template allocate_s< T >() );
             (*val) = (*begin);
-            ++begin;
         }
         return( raft::stop );
     }
-- 
2.43.0


From 5623dbfe6b6aa8d16296ccd7e033581f6cef91bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 29/38] fix: random_variate sends nothing when none are asked
 for

---
 raftinc/random.tcc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/raftinc/random.tcc b/raftinc/random.tcc
index 48f9e5a..c6320b5 100644
--- a/raftinc/random.tcc
+++ b/raftinc/random.tcc
@@ -75,6 +75,11 @@ public:
 
     virtual raft::kstatus run()
     {
+        if( count_of_sent >= N )
+        {
+            /** none asked for **/
+            return( raft::stop );
+        }
         for( auto &p : output )
         {
             p.push( dist( gen ) );
-- 
2.43.0


From ffd319af630f3c4efa9e5cbf36e0debaba880060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 30/38] fix: select::in uses a generator of its own in each
 thread

---
 raftinc/select.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raftinc/select.tcc b/raftinc/select.tcc
index 9f8327c..d92c3e8 100644
--- a/raftinc/select.tcc
+++ b/raftinc/select.tcc
@@ -99,8 +99,8 @@ raft::select_t in( PORT_CONTAINER  &&port_container,
     /**
      * only need to initialize/create these once.
      */
-    static std::random_device rd;
-    static std::knuth_b g( rd() );
+    static thread_local std::random_device rd;
+    static thread_local std::knuth_b g( rd() );
     /**
      * shuffle
      */
-- 
2.43.0


From 68cb31da16235a39afd236cce8251f107c42628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 31/38] fix: range() tells large integers apart

---
 raftinc/utility.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raftinc/utility.hpp b/raftinc/utility.hpp
index cbb7b19..33827fd 100644
--- a/raftinc/utility.hpp
+++ b/raftinc/utility.hpp
@@ -61,7 +61,8 @@ range( const A a,
        const B b, 
        const common_t< A, B > delta = 1 )
 {
-  if( std::isless( a, b ) )
+  /** isless() compares as double, which large integers might be equal as **/
+  if( std::isless( a, b ) || ( ! std::isless( b, a ) && a < b ) )
   {
      const auto cap( (b - a + delta) / delta );
      common_v_t< A, B > out( cap );
-- 
2.43.0


From 3b9913ad4067b91e1c432b9d477f800074286832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:50 +0000
Subject: [PATCH 32/38] fix: range() does not overflow before its last element

---
 raftinc/utility.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/raftinc/utility.hpp b/raftinc/utility.hpp
index 33827fd..ae6b45f 100644
--- a/raftinc/utility.hpp
+++ b/raftinc/utility.hpp
@@ -64,7 +64,9 @@ range( const A a,
   /** isless() compares as double, which large integers might be equal as **/
   if( std::isless( a, b ) || ( ! std::isless( b, a ) && a < b ) )
   {
-     const auto cap( (b - a + delta) / delta );
+     const auto cap( std::is_integral< common_t< A, B > >::value ? 
+                     ( b - a ) / delta + 1 :
+                     (b - a + delta) / delta );
      common_v_t< A, B > out( cap );
      for( std::size_t index( 0 ); index < out.size(); index++ )
      {
@@ -74,7 +76,9 @@ range( const A a,
   }
   else
   {
-     const auto cap( (a - b + delta ) / delta );
+     const auto cap( std::is_integral< common_t< A, B > >::value ? 
+                     ( a - b ) / delta + 1 :
+                     (a - b + delta ) / delta );
      common_v_t< A, B > out( cap );
      for( std::size_t index( 0 ); index < out.size(); index++ )
      {
-- 
2.43.0


From c75621160c84f48b4d195c23e4a0f73fd48a9e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:01 +0000
Subject: [PATCH 33/38] fix: the deviation of equal samples is zero, not NaN

---
 raftinc/streamingstat.tcc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/raftinc/streamingstat.tcc b/raftinc/streamingstat.tcc
index ace7255..f34a39e 100644
--- a/raftinc/streamingstat.tcc
+++ b/raftinc/streamingstat.tcc
@@ -64,7 +64,10 @@ public:
       const F a(  sum_square / (F) N );
       const F b( (F) sum / (F) N );
       const F b_squared( b * b );
-      return( std::sqrt( a - b_squared ) );
+      /** might be negative by rounding only **/
+      const F variance( a - b_squared );
+      return( variance < static_cast< F >( 0 ) ? 
+               static_cast< F >( 0 ) : std::sqrt( variance ) );
    }
    
    
-- 
2.43.0


From 1ce10ba9f017bdf847b0dc8042b88f95dac1137a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 34/38] fix: destroy the elements still queued when a stream is
 destroyed

---
 raftinc/bufferdata.tcc | 48 ++++++++++++++++++++++++++++++++++++++++++
 raftinc/database.tcc   | 23 ++++++++++++++++++++
 2 files changed, 71 insertions(+)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 057c90e..f973b3e 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -171,6 +171,8 @@ template < class T > struct Data< T,
       //FREE USED HERE
       if( ! (this)->external_alloc )
       {
+         /** nobody can receive what's still queued, so release it **/
+         (this)->destroy_queued();
 #if (defined _WIN64 ) || (defined _WIN32)
 		 _aligned_free( (this)->store );
 #else
@@ -200,6 +202,7 @@ private:
             new ( &(this)->store[ i ] ) T( std::move( other->store[ i ] ) );
             other->store[ i ].~T();
         }
+        other->is_relocated = true;
    }
    
    template < class U = T,
@@ -212,6 +215,32 @@ private:
                      other->length_store );
    }
 
+   /**
+    * destroy_queued - call the destructor of each element that 
+    * was sent but never received. Nothing to do for those types
+    * that aren't of class type.
+    */
+   template < class U = T,
+              typename std::enable_if< 
+                  inline_class_alloc< U >::value >::type* = nullptr >
+   void destroy_queued()
+   {
+        const auto count( (this)->queued() );
+        auto index( Pointer::val( (this)->read_pt ) );
+        for( std::size_t i( 0 ); i < count; i++ )
+        {
+            (this)->store[ index ].~T();
+            index = ( index + 1 ) % (this)->max_cap;
+        }
+   }
+   
+   template < class U = T,
+              typename std::enable_if< 
+                  ! inline_class_alloc< U >::value >::type* = nullptr >
+   void destroy_queued()
+   {
+   }
+
 }; /** end heap < Line Size **/
 
 /** buffer structure for "heap" storage class > line size **/
@@ -311,6 +340,7 @@ template < class T >
         std::memcpy( (void*)(this)->store /* dst */,
                      (void*)other->store  /* src */,
                      other->length_store );
+        other->is_relocated = true;
         /** copy signal buff **/
         std::memcpy( (void*)(this)->signal /* dst */,
                      (void*)other->signal  /* src */,
@@ -325,6 +355,8 @@ template < class T >
       //FREE USED HERE
       if( ! (this)->external_alloc )
       {
+         /** nobody can receive what's still queued, so release it **/
+         (this)->destroy_queued();
 #if (defined _WIN64 ) || (defined _WIN32) 
 		 _aligned_free( (this)->store );
 #else
@@ -334,6 +366,22 @@ template < class T >
       free( (this)->signal );
    }
 
+private:
+   /**
+    * destroy_queued - delete each object that was sent but
+    * never received.
+    */
+   void destroy_queued()
+   {
+        const auto count( (this)->queued() );
+        auto index( Pointer::val( (this)->read_pt ) );
+        for( std::size_t i( 0 ); i < count; i++ )
+        {
+            delete( reinterpret_cast< T* >( (this)->store[ index ] ) );
+            index = ( index + 1 ) % (this)->max_cap;
+        }
+   }
+
 }; /** end heap > Line Size **/
 
 
diff --git a/raftinc/database.tcc b/raftinc/database.tcc
index d40ab21..292c111 100644
--- a/raftinc/database.tcc
+++ b/raftinc/database.tcc
@@ -57,6 +57,27 @@ template < class T > struct DataBase
     virtual void copyFrom( DataBase< T > *other ) = 0;
 
 
+    /**
+     * queued - number of elements within this buffer, only exact 
+     * once nobody is reading or writing it any more.
+     * @return std::size_t
+     */
+    std::size_t queued()
+    {
+        if( is_relocated )
+        {
+            return( 0 );
+        }
+        const auto wpt( Pointer::val( write_pt ) ),
+                   rpt( Pointer::val( read_pt  ) );
+        if( wpt == rpt )
+        {
+            return( Pointer::wrapIndicator( read_pt ) < 
+                        Pointer::wrapIndicator( write_pt ) ? max_cap : 0 );
+        }
+        return( wpt > rpt ? wpt - rpt : max_cap - rpt + wpt );
+    }
+
     const std::size_t       max_cap;
     /** sizes, might need to define a local type **/
     const std::size_t       length_store;
@@ -73,6 +94,8 @@ template < class T > struct DataBase
     bool                    external_alloc  = false;
     /** variable set by scheduler, used for shutdown **/
     bool                    is_valid        = true;
+    /** the elements were moved to another buffer by copyFrom **/
+    bool                    is_relocated    = false;
     
     /** need to force resize, this has the count requested **/
     std::size_t             force_resize    = 0;
-- 
2.43.0


From d7f28ad20074911e3c1afb150333afebec90c30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 35/38] fix: popping an element that nobody wants aborted

local_pop() states that an item is thrown away if ptr is nullptr, and
signal_pop() relies on it, but all three versions asserted that ptr is not
nullptr (and wrote through it otherwise), so that checkSystemSignal()
ended the program at the first system signal.
---
 raftinc/ringbufferheap.tcc | 42 ++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 2d9c39c..49bd7cb 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -360,12 +360,14 @@ protected:
       {
          *signal = buff_ptr->signal[ read_index ];
       }
-      assert( ptr != nullptr );
-      /** gotta dereference pointer and copy **/
-      T *item( reinterpret_cast< T* >( ptr ) );
-      *item = buff_ptr->store[ read_index ];
-      /** only increment here b/c we're actually reading an item **/
-      (this)->consumer_data.read_stats->bec.count++;
+      if( ptr != nullptr )
+      {
+         /** gotta dereference pointer and copy **/
+         T *item( reinterpret_cast< T* >( ptr ) );
+         *item = buff_ptr->store[ read_index ];
+         /** only increment here b/c we're actually reading an item **/
+         (this)->consumer_data.read_stats->bec.count++;
+      }
       Pointer::inc( buff_ptr->read_pt );
       (this)->datamanager.exitBuffer( dm::pop );
    }
@@ -793,10 +795,14 @@ protected:
       {
          *signal = buff_ptr->signal[ read_index ];
       }
-      assert( ptr != nullptr );
-      /** gotta dereference pointer and copy **/
-      T *item( reinterpret_cast< T* >( ptr ) );
-      *item = buff_ptr->store[ read_index ];
+      if( ptr != nullptr )
+      {
+         /** gotta dereference pointer and copy **/
+         T *item( reinterpret_cast< T* >( ptr ) );
+         *item = buff_ptr->store[ read_index ];
+         /** only increment here b/c we're actually reading an item **/
+         (this)->consumer_data.read_stats->bec.count++;
+      }
       /** 
        * we know the object is inline constructed, 
        * we should inline destruct it to fix bug
@@ -804,8 +810,6 @@ protected:
        * - applying same fix to out-of-band objects
        */
       ( &buff_ptr->store[ read_index ] )->~T();
-      /** only increment here b/c we're actually reading an item **/
-      (this)->consumer_data.read_stats->bec.count++;
       Pointer::inc( buff_ptr->read_pt );
       (this)->datamanager.exitBuffer( dm::pop );
    }
@@ -1269,13 +1273,15 @@ protected:
       {
          *signal = buff_ptr->signal[ read_index ];
       }
-      assert( ptr != nullptr );
-      /** gotta dereference pointer and copy **/
-      T *item( reinterpret_cast< T* >( ptr ) );
       auto *head( reinterpret_cast< T* >( buff_ptr->store[ read_index ] ) );
-      *item = *head;
-      /** only increment here b/c we're actually reading an item **/
-      (this)->consumer_data.read_stats->bec.count++;
+      if( ptr != nullptr )
+      {
+         /** gotta dereference pointer and copy **/
+         T *item( reinterpret_cast< T* >( ptr ) );
+         *item = *head;
+         /** only increment here b/c we're actually reading an item **/
+         (this)->consumer_data.read_stats->bec.count++;
+      }
       Pointer::inc( buff_ptr->read_pt );
       /**
        * fix for bug #76 - jcb 18Nov2018, done with this object
-- 
2.43.0


From a0bbc9b06a54850722389db460a1035592b3200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:33 +0000
Subject: [PATCH 36/38] fix: a kernel handed over before the scheduler started
 was started twice

---
 src/schedule.cpp       |  5 ++++-
 src/simpleschedule.cpp | 15 ++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/schedule.cpp b/src/schedule.cpp
index d72f8f2..bd07c54 100644
--- a/src/schedule.cpp
+++ b/src/schedule.cpp
@@ -120,12 +120,15 @@ Schedule::scheduleKernel( raft::kernel * const kernel )
    {
       dst_kernels += kernel;
    }
-   kernel_set += kernel;
    if( kernel->internal_alloc )
    {
       internally_created_kernels += kernel;
    }
+   /** both in one step, start() must not find it in between **/
+   auto &container( kernel_set.acquire() );
+   container.emplace( kernel );
    handleSchedule( kernel );
+   kernel_set.release();
    return;
 }
 
diff --git a/src/simpleschedule.cpp b/src/simpleschedule.cpp
index e29138b..ae2131a 100644
--- a/src/simpleschedule.cpp
+++ b/src/simpleschedule.cpp
@@ -21,6 +21,7 @@
 #include <functional>
 #include <iostream>
 #include <map>
+#include <set>
 #include <cmath>
 #include <chrono>
 #include <affinity>
@@ -69,9 +70,21 @@ simple_schedule::start()
     * function so that it doesn't call the lock for the thread map.
     */
    auto &container( kernel_set.acquire() );
+   /** scheduleKernel might have been called before we got here **/
+   std::set< raft::kernel* > scheduled;
+   {
+      std::lock_guard< std::mutex > guard( thread_map_mutex );
+      for( const auto * const t_info : thread_map )
+      {
+         scheduled.insert( t_info->data.k );
+      }
+   }
    for( auto * const k : container )
    {  
-      handleSchedule( k );
+      if( scheduled.count( k ) == 0 )
+      {
+         handleSchedule( k );
+      }
    }
    kernel_set.release();
    
-- 
2.43.0


From b42fcc6386fe109d23253b06a0327ba9f23dd139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:45 +0000
Subject: [PATCH 37/38] Name the variables that order the two ends of a stream

RAFT_SHARED_T and RAFT_SAMPLED are empty unless RAFT_VERIF_SHARED is defined.
---
 raftinc/blocked.hpp      |  6 +++---
 raftinc/database.tcc     |  4 ++--
 raftinc/internaldefs.hpp | 12 ++++++++++++
 raftinc/pointer.hpp      |  4 ++--
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/raftinc/blocked.hpp b/raftinc/blocked.hpp
index a71466f..105f2fd 100644
--- a/raftinc/blocked.hpp
+++ b/raftinc/blocked.hpp
@@ -54,14 +54,14 @@ struct ALIGN( L1D_CACHE_LINE_SIZE ) Blocked
     
     struct blocked_and_counter
     {
-       value_type   blocked = 0;
-       value_type   count   = 0;
+       RAFT_SAMPLED value_type   blocked = 0;
+       RAFT_SAMPLED value_type   count   = 0;
     };
     
     union
     {
         blocked_and_counter bec;
-        whole_type          all = 0;
+        RAFT_SAMPLED whole_type   all = 0;
     };
 
     char pad[ L1D_CACHE_LINE_SIZE - sizeof( whole_type ) ]; 
diff --git a/raftinc/database.tcc b/raftinc/database.tcc
index 292c111..78847da 100644
--- a/raftinc/database.tcc
+++ b/raftinc/database.tcc
@@ -93,12 +93,12 @@ template < class T > struct DataBase
     Signal                  *signal         = nullptr;
     bool                    external_alloc  = false;
     /** variable set by scheduler, used for shutdown **/
-    bool                    is_valid        = true;
+    RAFT_SHARED_T( bool )   is_valid{ true };
     /** the elements were moved to another buffer by copyFrom **/
     bool                    is_relocated    = false;
     
     /** need to force resize, this has the count requested **/
-    std::size_t             force_resize    = 0;
+    RAFT_SHARED_T( std::size_t ) force_resize{ 0 };
 
      
     using value_type = T;
diff --git a/raftinc/internaldefs.hpp b/raftinc/internaldefs.hpp
index 54f319c..4d0c010 100644
--- a/raftinc/internaldefs.hpp
+++ b/raftinc/internaldefs.hpp
@@ -67,6 +67,18 @@
 #endif
 
 
+/**
+ * RAFT_SHARED_T - type of the variables that the two ends of a
+ * stream (and the allocator) read and write concurrently, and which
+ * order everything else; RAFT_SAMPLED is put before counters that
+ * are sampled while they change. With RAFT_VERIF_SHARED, both are
+ * defined on the outside, for the use of a race detector.
+ */
+#ifndef RAFT_VERIF_SHARED
+#    define RAFT_SHARED_T( T ) T
+#    define RAFT_SAMPLED
+#endif
+
 #if (defined __linux) || (defined __APPLE__ )
 
 #define R_LIKELY( var ) __builtin_expect( var, 1 )
diff --git a/raftinc/pointer.hpp b/raftinc/pointer.hpp
index 498473a..e13eb9e 100644
--- a/raftinc/pointer.hpp
+++ b/raftinc/pointer.hpp
@@ -89,7 +89,7 @@ public:
    static std::size_t wrapIndicator( Pointer &ptr ) ;
    
 private:
-     std::uint64_t           a  = 0;
+     RAFT_SHARED_T( std::uint64_t ) a{ 0 };
 #ifdef JVEC_MACHINE    
      std::uint64_t           b  = 0;
 #endif    
@@ -102,7 +102,7 @@ private:
      * TODO, get these set correctly if we do eventually
      * wrap an unsigned 64 int.
      */
-     wrap_t    wrap_a  = 0;
+     RAFT_SHARED_T( wrap_t )    wrap_a{ 0 };
 #ifdef JVEC_MACHINE    
      wrap_t    wrap_b  = 0;
 #endif    
-- 
2.43.0


From f010748ad0bf9e1d503ec2976312083bc0661af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 38/38] fix: a copy of a print kernel had one port only

print, copied or cloned on more than one port, made a kernel with a single
port: the number of ports was not kept by the constructors.
---
 raftinc/print.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raftinc/print.tcc b/raftinc/print.tcc
index a36df07..61003b2 100644
--- a/raftinc/print.tcc
+++ b/raftinc/print.tcc
@@ -40,7 +40,8 @@ template< typename T > class printabstract : public raft::kernel,
 {
 public:
     printabstract( const std::size_t n_input_ports = 1 ) : raft::kernel(),
-                                                           raft::printbase()
+                                                           raft::printbase(),
+                                                           input_port_count( n_input_ports )
     {
         using index_type = std::remove_const_t< decltype( n_input_ports ) >;
         for( index_type index( 0 ); index < n_input_ports; index++ )
@@ -61,7 +62,8 @@ public:
     
     printabstract( std::ostream &stream, 
                    const std::size_t n_input_ports = 1 )  : raft::kernel(),
-                                                            raft::printbase()
+                                                            raft::printbase(),
+                                                            input_port_count( n_input_ports )
     {
         using index_type = std::remove_const_t< decltype( n_input_ports ) >;
         for( index_type index( 0 ); index < n_input_ports; index++ )
-- 
2.43.0

