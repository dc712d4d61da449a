// Model-based executions of the real stream against a reference queue.
//   fifo <property|all> <seed> <seconds> [cap rp cnt]
// Prints the history and "FAIL <property> ..." and exits 1 on the first disagreement that
// concerns the property; exits 0 when none was found in the time given.
// Used to replay / look for a failing input when a proof obligation fails, never as the deciding step.
//   with -DLIFE (life.cpp): also chains of streams whose kernel passes elements on, with the scheduler's clean-up
#ifdef LIFE
#include <raft>
#endif
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <atomic>
#include <thread>
#include <chrono>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <random>
#include <string>
#include <vector>
#include <functional>
#include <sstream>
#include <array>
#include <iostream>
#include <cassert>
#include "fifo.hpp"
#include "ringbuffer.tcc"
#include "pointer.hpp"
#include "src/pointer.cpp"
#include "src/signal.cpp"
#include "src/blocked.cpp"
#include "src/fifo.cpp"
#include "src/raftexception.cpp"
#include "src/portexception.cpp"
#include "src/kernelexception.cpp"
#ifdef LIFE
#include "src/schedule.cpp"
#include "src/port.cpp"
#include "src/portiterator.cpp"
#include "src/port_info.cpp"
#include "src/kernel.cpp"
#include "src/kernel_wrapper.cpp"
#include "src/kpair.cpp"
#include "src/kernel_pair_t.cpp"
#include "src/mapbase.cpp"
#include "src/systemsignalhandler.cpp"
#include "src/common.cpp"
#include "src/mapexception.cpp"
namespace raft { std::string demangle( const char *n ){ return n; } }
#endif

static std::string PROP = "all";
static std::string HIST;
static volatile int phase_dl = 0;

static void dump( const char *why, const char *prop )
{
   std::string s = "\nhistory: " + HIST + "\nFAIL " + prop + " " + why + "\n";
   ssize_t r = write( 1, s.data(), s.size() ); (void) r;
}
static bool wants( const char *props )
{
   return PROP == "all" || strstr( props, PROP.c_str() ) != nullptr ||
          ( PROP == "C09" && HIST.find( "resize" ) != std::string::npos && ( strstr( props, "C01" ) || strstr( props, "C02" ) || strstr( props, "C18" ) ) );
}
#define FAIL( props, ... ) do{ if( wants( props ) ){ char b_[ 400 ]; snprintf( b_, sizeof b_, __VA_ARGS__ ); \
   dump( b_, PROP == "all" ? props : PROP.c_str() ); _exit( 1 ); } else { throw Stop(); } }while( 0 )
#define REQ( props, c, ... ) do{ if( !( c ) ) FAIL( props, __VA_ARGS__ ); }while( 0 )
struct Stop {};

// which properties a crash or a hang in an operation counts against
static const char *crash_props = "C01 C06 C09";
static const char *hang_props  = "C18";
extern "C" void __asan_on_error(){ dump( "memory error in the history above", crash_props ); }
static void on_sig( int s )
{
   if( s == SIGALRM )
   {
      dump( "the last operation does not return although nothing keeps it from proceeding", hang_props );
      _exit( wants( hang_props ) ? 1 : 3 );
   }
   dump( "crash in the last operation", crash_props );
   _exit( wants( crash_props ) ? 1 : 3 );
}

static std::set< const void* > ALIVE;
static bool life_on = true;
static void born( const void *p, const char *w ){ if( life_on ){ if( !ALIVE.insert( p ).second ) FAIL( "C06", "%s over an object that is still alive", w ); } }
static void gone( const void *p ){ if( life_on ){ if( !ALIVE.erase( p ) ) FAIL( "C06", "destructor called on something that is not a live object" ); } }
static void used( const void *p, const char *w ){ if( life_on && !ALIVE.count( p ) ) FAIL( "C06", "%s an object that is not alive", w ); }
template < int N > struct Obj
{
   std::uint64_t v;
   std::uint64_t w[ N ];
   Obj() : v( 0 ) { born( this, "default constructor" ); }
   Obj( std::uint64_t x ) : v( x ) { for( auto &y : w ) y = x; born( this, "constructor" ); }
   Obj( const Obj &o ) : v( o.v ) { used( &o, "copy from" ); memcpy( w, o.w, sizeof w ); born( this, "copy constructor" ); }
   Obj& operator = ( const Obj &o ){ used( &o, "assign from" ); used( this, "assign to" ); v = o.v; memcpy( w, o.w, sizeof w ); return *this; }
   ~Obj(){ gone( this ); v = 0xdeadbeef; }
   operator std::uint64_t () const { return v; }
   // memory of destroyed objects is given out again at once while `reuse` is set
   static void* operator new( std::size_t n ){ auto &l = spare(); if( reuse && !l.empty() ){ void *p = l.back(); l.pop_back(); return p; } return ::operator new( n ); }
   static void operator delete( void *p ){ if( reuse ) spare().push_back( p ); else ::operator delete( p ); }
   static void* operator new( std::size_t, void *p ){ return p; }
   static std::vector< void* >& spare(){ static std::vector< void* > l; return l; }
   static inline bool reuse = false;
};
using Item = Obj< 1 >;
using Big  = Obj< 15 >;
static_assert( inline_class_alloc< Item >::value, "Item is stored inline" );
static_assert( ext_alloc< Big >::value, "Big is stored externally" );

static std::mt19937_64 rng;
static unsigned rnd( unsigned n ){ return n ? (unsigned)( rng() % n ) : 0; }

template < class T > constexpr bool is_big = ext_alloc< T >::value;
template < class T > constexpr bool is_cls = !std::is_scalar< T >::value;
struct El { std::uint64_t v; int s; };

template < class T > struct Box
{
   using RB = RingBuffer< T, Type::Heap, false >;
   RB *f; FIFO *q;
   std::size_t cap;
   std::deque< El > m;
   bool open = true;
   unsigned wc = 0, rc = 0;
   int ac = 0;               // 0 none 1 allocate 2 range
   std::size_t an = 0; std::vector< std::uint64_t > av;
   bool pk = false;
   bool rcmaybe = false;     // pop_s or recycle happened: the read count is not specified for them
   ptr_map_t in; ptr_set_t out, in_peek, out_peek;
   std::size_t ext_start = 0; bool ext = false;
   std::uint64_t next = 1;

   Box( std::size_t c ) : cap( c )
   {
      q = RB::make_new_fifo( c, 16, nullptr ); f = static_cast< RB* >( q );
      f->setPtrMap( &in ); f->setPtrSet( &out ); f->setInPeekSet( &in_peek ); f->setOutPeekSet( &out_peek );
   }
   ~Box(){}
   void h( const std::string &s ){ HIST += s + "; "; }
   void check( const char *after )
   {
      REQ( "C02 C01", f->size() == m.size(), "size() is %zu, %zu elements are unread (after %s)", f->size(), m.size(), after );
      REQ( "C02 C09", f->capacity() == cap, "capacity() is %zu, created with %zu", f->capacity(), cap );
      REQ( "C02", f->space_avail() == cap - m.size(), "space_avail() is %zu, free are %zu", f->space_avail(), cap - m.size() );
      REQ( "C07 C09", f->is_invalid() == !open, "open/closed state changed (after %s)", after );
      auto *d = f->datamanager.get();
      auto *ta = d->thread_access;
      for( int t = 0; t < 2; t++ ) for( int i = 0; i < 8; i++ )
      {
         int want = ( t == 0 && i == dm::allocate && ac == 1 ) || ( t == 0 && i == dm::allocate_range && ac == 2 ) || ( t == 1 && i == dm::peek && pk );
         REQ( "C10 C05", ta[ t ].flag[ i ] == want, "access flag [%d][%d] is %d, expected %d (after %s)", t, i, ta[ t ].flag[ i ], want, after );
      }
      REQ( "C10", f->datamanager.checking_size.load() == 0, "size access counter is not zero (after %s)", after );
      REQ( "C10", !f->datamanager.resizing, "resizing flag left set" );
      REQ( "C11", d->write_stats.bec.blocked == 0 && d->read_stats.bec.blocked == 0, "blocked flag raised without waiting (after %s)", after );
      REQ( "C11 C09", d->write_stats.bec.count == wc, "write count %u, published %u (after %s)", (unsigned) d->write_stats.bec.count, wc, after );
      REQ( "C11 C09", d->read_stats.bec.count == rc, "read count %u, popped %u (after %s)", (unsigned) d->read_stats.bec.count, rc, after );
      REQ( "C11", f->get_suggested_count() == 0, "suggested count set although nothing larger than the stream was requested" );
      if constexpr( std::is_same< T, Item >::value )
      {
         if( life_on )
         {
            const char *b = (const char*) d->store; std::size_t n = 0;
            for( auto *p : ALIVE ) if( (const char*) p >= b && (const char*) p < b + cap * sizeof( Item ) ) n++;
            REQ( "C06", n == m.size() + ( ac == 1 ), "%zu live objects in the stream, %zu expected (after %s)", n, m.size() + ( ac == 1 ), after );
         }
      }
      if constexpr( is_big< T > )
      {
         if( life_on )
            REQ( "C06", ALIVE.size() == m.size() + ( ac == 1 ) + in.size(), "%zu objects alive, %zu expected (after %s)", ALIVE.size(), m.size() + ( ac == 1 ) + in.size(), after );
      }
      // contents, looked at directly: nothing but the operation under test has run
      auto *st = d->store;
      std::size_t rp = Pointer::val( d->read_pt );
      for( std::size_t k = 0; k < m.size(); k++ )
      {
         std::size_t i = ( rp + k ) % cap;
         std::uint64_t v;
         if constexpr( is_big< T > ) v = (std::uint64_t) *( reinterpret_cast< T** >( st )[ i ] ); else v = (std::uint64_t) st[ i ];
         REQ( "C01 C05 C09", v == m[ k ].v, "unread element %zu is %lu, published %lu (after %s)", k, (unsigned long) v, (unsigned long) m[ k ].v, after );
         REQ( "C03 C05 C09", (int)(raft::signal) d->signal[ i ] == m[ k ].s, "unread element %zu carries signal %d, sent with %d (after %s)", k, (int)(raft::signal) d->signal[ i ], m[ k ].s, after );
      }
   }
   T mk( std::uint64_t v ){ return T( v ); }
   void pub( std::uint64_t v, int s, bool cnt = true ){ m.push_back( El{ v, s } ); if( cnt ) wc++; }
   int sigv(){ static const int S[] = { 0, 1, 2, 10, 1000 }; return S[ rnd( 5 ) ]; }
   static raft::signal sg( int s ){ return static_cast< raft::signal >( s ); }
   std::string hx( const char *n, std::uint64_t a, long b = -1 ){ std::string s = std::string( n ) + "(" + std::to_string( a ); if( b >= 0 ) s += "," + std::to_string( b ); return s + ")"; }

   void producer()
   {
      std::size_t fr = cap - m.size();
      if( ac )
      {
         int s = sigv(); int w = rnd( 8 );
         if( ac == 1 )
         {
            if( w == 0 ){ h( "deallocate" ); f->deallocate(); ac = 0; check( "deallocate" ); return; }
            h( hx( "send", s ) );
            if( w == 1 ){ f->send(); s = 0; } else f->send( sg( s ) );
            ac = 0; pub( av[ 0 ], s ); check( "send" );
         }
         else
         {
            if( w == 0 ){ h( "deallocate" ); f->deallocate(); ac = 0; check( "deallocate" ); return; }
            h( hx( "send_range", s ) );
            f->send_range( sg( s ) ); ac = 0;
            for( std::size_t i = 0; i < an; i++ ) pub( av[ i ], i == 0 ? s : 0 );
            check( "send_range" );
         }
         return;
      }
      switch( rnd( 10 ) )
      {
         case 0: h( "send" ); f->send( sg( sigv() ) ); check( "send without allocate" ); return;
         case 1: h( "send_range" ); f->send_range( sg( sigv() ) ); check( "send_range without allocate" ); return;
         case 2: h( "deallocate" ); f->deallocate(); check( "deallocate without allocate" ); return;
         default: break;
      }
      if( fr == 0 ) return;
      std::uint64_t v = next++; int s = sigv();
      switch( rnd( 8 ) )
      {
         case 0: { h( hx( "push", v, s ) ); { T t( mk( v ) ); q->push< T >( t, sg( s ) ); REQ( "C01", (std::uint64_t) t == v, "push changed the caller's object" ); } pub( v, s ); check( "push" ); } return;
         case 1: { h( hx( "push&&", v, s ) ); { q->push< T >( mk( v ), sg( s ) ); } pub( v, s ); check( "push(T&&)" ); } return;
         case 2: { h( hx( "push", v ) ); { T t( mk( v ) ); q->push< T >( t ); } pub( v, 0 ); check( "push" ); } return;
         case 3:
         {
            h( hx( "allocate", v ) );
            if constexpr( is_cls< T > ){ T &r = q->allocate< T >( std::uint64_t( v ) ); used( &r, "allocate returns" ); REQ( "C05 C01", (std::uint64_t) r == v, "allocate did not construct the element from its arguments" ); }
            else { T &r = q->allocate< T >(); r = v; }
            ac = 1; av.assign( 1, v ); check( "allocate" );
         } return;
         case 4:
         {
            h( hx( "allocate_s", v, s ) );
            {
               if constexpr( is_cls< T > ){ auto a( q->allocate_s< T >( std::uint64_t( v ) ) ); REQ( "C05", m.size() == f->size(), "allocate_s already visible" ); a.sig() = sg( s ); REQ( "C05 C01", (std::uint64_t)( *a ) == v, "allocate_s value" ); }
               else { auto a( q->allocate_s< T >() ); *a = v; a.sig() = sg( s ); REQ( "C05", m.size() == f->size(), "allocate_s already visible" ); }
            }
            pub( v, s ); check( "allocate_s" );
         } return;
         case 5:
            if constexpr( !is_cls< T > )
            {
               std::size_t n = rnd( fr + 1 );
               h( hx( "allocate_range", n ) );
               auto a( q->allocate_range< T >( n ) );
               REQ( "C05", a.size() == n, "allocate_range gives %zu references, asked for %zu", a.size(), n );
               an = n; av.clear();
               std::set< T* > d;
               for( auto &x : a ){ d.insert( &x.get() ); }
               REQ( "C05", d.size() == n, "allocate_range hands out a slot twice" );
               for( auto &x : a ){ x.get() = next; av.push_back( next++ ); }
               ac = 2; check( "allocate_range" );
            }
            return;
         case 6:
         {
            std::size_t n = rnd( (unsigned) fr + 1 );
            h( hx( "insert(vector)", n, s ) );
            {
               std::vector< T > a; a.reserve( n ); std::vector< El > e;
               for( std::size_t i = 0; i < n; i++ ){ a.emplace_back( next ); e.push_back( El{ next++, i + 1 == n ? s : 0 } ); }
               q->insert( a.begin(), a.end(), sg( s ) );
               for( auto &x : e ) pub( x.v, x.s );
            }
            check( "insert(vector)" );
         } return;
         case 7:
         {
            std::size_t n = rnd( (unsigned) fr + 1 );
            h( hx( "insert(list)", n, s ) );
            {
               std::list< T > a; std::vector< El > e;
               for( std::size_t i = 0; i < n; i++ ){ a.emplace_back( next ); e.push_back( El{ next++, i + 1 == n ? s : 0 } ); }
               q->insert( a.begin(), a.end(), sg( s ) );
               for( auto &x : e ) pub( x.v, x.s );
            }
            check( "insert(list)" );
         } return;
      }
   }
   void got( std::uint64_t v, int s, const char *w, bool hassig = true )
   {
      REQ( "C01", v == m.front().v, "%s returned %lu, oldest element is %lu", w, (unsigned long) v, (unsigned long) m.front().v );
      if( hassig ) REQ( "C03", s == m.front().s, "%s returned signal %d, element was sent with %d", w, s, m.front().s );
      m.pop_front();
   }
   void gc(){ for( auto &x : in ) x.second( (void*) x.first ); in.clear(); in_peek.clear(); }
   void consumer()
   {
      if( is_big< T > && rnd( 4 ) == 0 && !in.empty() && !pk ){ h( "gc" ); gc(); check( "gc" ); }
      if( pk && rnd( 3 ) == 0 ){ h( "unpeek" ); f->unpeek(); pk = false; check( "unpeek" ); return; }
      if( m.empty() )
      {
         if( open ) return;
         int w = rnd( 5 ); const char *names[] = { "pop", "peek", "pop_s", "peek_range", "recycle" };
         h( std::string( names[ w ] ) + " on closed" );
         bool ex = false;
         try
         {
            raft::signal s;
            if( w == 0 ){ T t( mk( 7 ) ); try { q->pop< T >( t, &s ); } catch( ClosedPortAccessException & ){ ex = true; } }
            else if( w == 1 ) q->peek< T >( &s );
            else if( w == 2 ){ auto a( q->pop_s< T >() ); }
            else if( w == 3 ){ if constexpr( !is_big< T > ) { auto a( q->peek_range< T >( 1 + rnd( 3 ) ) ); } else ex = true; }
            else { q->recycle( 1 + rnd( 3 ) ); REQ( "C07 C04", true, " " ); ex = true; }
         }catch( ClosedPortAccessException & ){ REQ( "C07", w != 4, "recycle on a closed stream throws" ); ex = true; }
         catch( NoMoreDataException & ){ FAIL( "C07", "NoMoreDataException on a drained stream" ); }
         REQ( "C07", ex, "%s on a closed and drained stream returned", names[ w ] );
         if( w == 1 || w == 2 || ( w == 3 && !is_big< T > ) ) pk = false;
         check( "read on closed" );
         return;
      }
      try
      {
      switch( rnd( 9 ) )
      {
         case 0: case 1: { h( "pop" ); raft::signal s = sg( 77 ); std::uint64_t v; { T t( mk( 1 ) ); q->pop< T >( t, &s ); v = (std::uint64_t) t; } got( v, (int) s, "pop" ); rc++; check( "pop" ); } return;
         case 2: { h( "pop" ); std::uint64_t v; { T t( mk( 1 ) ); q->pop< T >( t ); v = (std::uint64_t) t; } got( v, 0, "pop", false ); rc++; check( "pop" ); } return;
         case 3:
         {
            std::size_t n = 1 + rnd( (unsigned) m.size() );
            h( hx( "pop_range", n ) );
            {
               std::vector< std::pair< T, raft::signal > > a; a.reserve( n );
               for( std::size_t i = 0; i < n; i++ ) a.emplace_back( mk( 5 ), sg( 77 ) );
               q->pop_range< T >( a, n );
               REQ( "C01", a.size() == n, "pop_range changed the size of the container" );
               for( std::size_t i = 0; i < n; i++ ){ got( (std::uint64_t) a[ i ].first, (int) a[ i ].second, "pop_range" ); rc++; }
            }
            check( "pop_range" );
         } return;
         case 4:
         {
            raft::signal s = sg( 77 ); bool ws = rnd( 2 );
            h( "peek" );
            T &r = ws ? q->peek< T >( &s ) : q->peek< T >();
            used_cls( &r );
            REQ( "C04 C01", (std::uint64_t) r == m.front().v, "peek sees %lu, oldest element is %lu", (unsigned long)(std::uint64_t) r, (unsigned long) m.front().v );
            if( ws ) REQ( "C04 C03", (int) s == m.front().s, "peek gives signal %d, oldest element's is %d", (int) s, m.front().s );
            pk = true; check( "peek" );
            if( rnd( 2 ) ){ h( "unpeek" ); f->unpeek(); pk = false; check( "unpeek" ); }
         } return;
         case 5:
         {
            h( "pop_s" );
            {
               auto a( q->pop_s< T >() );
               REQ( "C04 C01", (std::uint64_t) *a == m.front().v, "pop_s sees %lu, oldest element is %lu", (unsigned long)(std::uint64_t) *a, (unsigned long) m.front().v );
               REQ( "C04 C03", (int) a.sig() == m.front().s, "pop_s gives signal %d, oldest element's is %d", (int) a.sig(), m.front().s );
               REQ( "C04", f->size() == m.size(), "pop_s consumed before release" );
            }
            m.pop_front(); pk = false; check( "pop_s" );
         } return;
         case 6:
            if constexpr( !is_big< T > )
            {
               std::size_t n = 1 + rnd( (unsigned) m.size() );
               h( hx( "peek_range", n ) );
               {
                  auto a( q->peek_range< T >( n ) );
                  REQ( "C04", a.size() == n, "peek_range size %zu, asked for %zu", a.size(), n );
                  for( std::size_t i = 0; i < n; i++ )
                  {
                     REQ( "C04 C01", (std::uint64_t) a[ i ].ele == m[ i ].v, "peek_range[%zu] is %lu, expected %lu", i, (unsigned long)(std::uint64_t) a[ i ].ele, (unsigned long) m[ i ].v );
                     REQ( "C04 C03", (int)(raft::signal) a[ i ].sig == m[ i ].s, "peek_range[%zu] signal %d, expected %d", i, (int)(raft::signal) a[ i ].sig, m[ i ].s );
                  }
                  bool t = false;
                  try { a[ n ]; } catch( std::length_error & ){ t = true; }
                  REQ( "C04 C01", t, "peek_range lets one read past the range" );
               }
               pk = false; check( "peek_range" );
               if( !open )
               {
                  h( "peek_range too many" ); bool t = false;
                  try { auto a( q->peek_range< T >( m.size() + 1 ) ); } catch( NoMoreDataException & ){ t = true; } catch( ClosedPortAccessException & ){}
                  REQ( "C07", t, "peek_range beyond what a closed stream holds" );
                  check( "peek_range too many" );
               }
            }
            return;
         case 7:
         {
            std::size_t n = open ? 1 + rnd( (unsigned) m.size() ) : 1 + rnd( (unsigned) m.size() + 3 );
            if( rnd( 6 ) == 0 ) n = 0;
            h( hx( "recycle", n ) );
            if( n == 1 && rnd( 2 ) ) q->recycle(); else q->recycle( n );
            for( std::size_t i = 0; i < n && !m.empty(); i++ ) m.pop_front();
            check( "recycle" );
         } return;
         case 8:
            if( rnd( 2 ) )
            {
               h( "signal_peek" );
               int s = (int) f->signal_peek();
               REQ( "C03 C04", s == m.front().s, "signal_peek gives %d, oldest element's is %d", s, m.front().s );
               check( "signal_peek" );
            }
            else if constexpr( !is_cls< T > )
            {
               h( "signal_pop" ); f->signal_pop(); m.pop_front(); check( "signal_pop" );
            }
            return;
      }
      }
      catch( ClosedPortAccessException & ){ FAIL( "C07 C04", "closed port reported although %zu elements are unread", m.size() ); }
      catch( NoMoreDataException & ){ FAIL( "C07 C04", "no more data reported although enough elements are unread" ); }
   }
   template < class U > void used_cls( U *p ){ if constexpr( is_cls< U > ) used( p, "reference to" ); }
   void other()
   {
      switch( rnd( 12 ) )
      {
         case 0: if( !ac && rnd( 4 ) == 0 ){ h( "invalidate" ); f->invalidate(); open = false; check( "invalidate" ); } return;
         case 1: { h( "get_zero_read_stats" ); Blocked b; b.all = 0x7777; f->get_zero_read_stats( b ); REQ( "C11", b.bec.count == rc && b.bec.blocked == 0, "read statistics returned %u, accumulated %u", (unsigned) b.bec.count, rc ); rc = 0; check( "get_zero_read_stats" ); } return;
         case 2: { h( "get_zero_write_stats" ); Blocked b; b.all = 0x7777; f->get_zero_write_stats( b ); REQ( "C11", b.bec.count == wc && b.bec.blocked == 0, "write statistics returned %u, accumulated %u", (unsigned) b.bec.count, wc ); wc = 0; check( "get_zero_write_stats" ); } return;
         case 3:
         {
            unsigned b = rnd( 2 ), c = rnd( 3 ) * 4;
            h( hx( "get_frac_write_blocked", b, c ) );
            f->datamanager.get()->write_stats.bec.blocked = b; f->datamanager.get()->write_stats.bec.count = c;
            float g = f->get_frac_write_blocked(), e = ( b == 0 || c == 0 ) ? 0.f : (float) b / (float) c;
            REQ( "C11", g == e, "fraction of blocked writes %f, expected %f", g, e );
            wc = 0; check( "get_frac_write_blocked" );
         } return;
         case 4: case 5:
         {
            if( ac || pk ) return;
            auto *d = f->datamanager.get();
            bool can = Pointer::val( d->read_pt ) < Pointer::val( d->write_pt );
            if( !can && open && rnd( 3 ) ) return;
            std::size_t nc = rnd( 3 ) ? cap + 1 + rnd( 4 ) : cap * ( 2 + rnd( 3 ) ) + rnd( 3 );
            volatile bool ex = false;
            if( !can && open ) ex = true;
            if( rnd( 8 ) == 0 ) ex = true;
            h( hx( ex ? "resize with exit" : "resize", nc ) );
            const char *ob = (const char*) d->store; std::size_t oc = cap;
            std::vector< std::size_t > offs;
            if( std::is_same< T, Item >::value ) for( auto *p : ALIVE ) if( (const char*) p >= ob && (const char*) p < ob + oc * sizeof( T ) ) offs.push_back( (const char*) p - ob );
            d->read_stats.bec.blocked = rnd( 2 ); d->write_stats.bec.blocked = rnd( 2 );
            const auto wa( d->write_stats.all ), ra( d->read_stats.all );
            f->resize( nc, 16, ex );
            REQ( "C09 C11", f->datamanager.get()->write_stats.all == wa && f->datamanager.get()->read_stats.all == ra, "transfer statistics changed by a resize" );
            f->datamanager.get()->read_stats.bec.blocked = 0; f->datamanager.get()->write_stats.bec.blocked = 0;
            if( !ex && open )
            {
               cap = nc;
               if( std::is_same< T, Item >::value ){ for( auto o : offs ) ALIVE.erase( ob + o ); for( auto o : offs ) ALIVE.insert( (const char*) f->datamanager.get()->store + o ); }
            }
            REQ( "C09", f->capacity() == cap, "capacity() is %zu after a resize to %zu", f->capacity(), cap );
            REQ( "C09", f->datamanager.get()->length_store >= cap * sizeof( *f->datamanager.get()->store ), "element storage size after resize" );
            REQ( "C09 C11", f->producer_data.write_stats == &f->datamanager.get()->write_stats && f->consumer_data.read_stats == &f->datamanager.get()->read_stats, "statistics call-backs do not follow the buffer" );
            REQ( "C09 C10", f->datamanager.thread_access == f->datamanager.get()->thread_access, "access flags do not follow the buffer" );
            check( "resize" );
         } return;
         default: return;
      }
   }
   void run( unsigned steps, unsigned bias )
   {
      check( "construction" );
      for( unsigned i = 0; i < steps; i++ )
      {
         alarm( 10 );
         unsigned r = rnd( 10 );
         if( r == 0 ) other(); else if( rnd( 10 ) < bias ){ if( open || ac ) producer(); } else consumer();
         bias = 3 + rnd( 5 );
      }
      drain();
   }
   void drain()
   {
      if( ac ){ h( "deallocate" ); f->deallocate(); ac = 0; }
      if( pk ){ f->unpeek(); pk = false; }
      while( !m.empty() ){ h( "pop" ); raft::signal s; std::uint64_t v; { T t( mk( 1 ) ); q->pop< T >( t, &s ); v = (std::uint64_t) t; } got( v, (int) s, "pop" ); rc++; check( "pop" ); }
      gc();
      if( is_cls< T > ) REQ( "C06", ALIVE.empty(), "%zu element objects never destroyed", ALIVE.size() );
      h( "~" ); delete q; q = nullptr;
   }
};

template < class T > void episode( const char *name, std::size_t cap, std::size_t rp, std::size_t cnt )
{
   HIST = std::string( name ) + " cap=" + std::to_string( cap ) + ": ";
   ALIVE.clear();
   try
   {
      Box< T > b( cap );
      for( std::size_t i = 0; i < rp; i++ ){ { T t( b.mk( 1 ) ); b.q->template push< T >( t ); } { T t( b.mk( 1 ) ); b.q->template pop< T >( t ); } b.wc++; b.rc++; }
      if( rp ) HIST += "(push,pop)x" + std::to_string( rp ) + "; ";
      for( std::size_t i = 0; i < cnt; i++ ){ std::uint64_t v = b.next++; int s = b.sigv(); { T t( b.mk( v ) ); b.q->template push< T >( t, Box< T >::sg( s ) ); } b.pub( v, s ); }
      if( cnt ) HIST += "push x" + std::to_string( cnt ) + "; ";
      b.run( 6 + rnd( 50 ), 3 + rnd( 6 ) );
   }
   catch( Stop & ){}
}

// user memory: arrays handed to the consumer
static void external_memory( unsigned n )
{
   HIST = "stream over user memory, " + std::to_string( n ) + " elements: ";
   std::vector< std::uint64_t > a( n ); for( unsigned i = 0; i < n; i++ ) a[ i ] = 100 + i;
   auto *q = RingBuffer< std::uint64_t, Type::Heap, false >::make_new_fifo( n, 5, a.data() );
   try
   {
      REQ( "C02 C01", q->size() == n && q->capacity() == n && q->space_avail() == 0, "size/capacity/space of a stream over user memory" );
      volatile bool ex = false; alarm( 10 );
      q->resize( n + 3, 16, ex );
      REQ( "C09", q->capacity() == n, "a stream over user memory was resized" );
      { auto r( q->peek_range< std::uint64_t >( n ) ); REQ( "C04 C16 C15", r.getindex() == 5, "start index" );
        for( unsigned i = 0; i < n; i++ ){ REQ( "C04 C01", r[ i ].ele == a[ i ], "element" ); REQ( "C03", (int)(raft::signal) r[ i ].sig == 0, "signal of an element sent without one" ); } }
      for( unsigned i = 0; i < n; i++ ){ std::uint64_t v; raft::signal s; q->pop< std::uint64_t >( v, &s ); REQ( "C01", v == a[ i ], "element" ); REQ( "C03", (int) s == 0, "signal of an element sent without one" ); }
      for( unsigned i = 0; i < n; i++ ) REQ( "C01", a[ i ] == 100 + i, "user memory changed" );
   }catch( Stop & ){}
   delete q;
}

// ---------------------------------------------------------------- two threads
template < class T > static void concurrent( const char *name, unsigned cap, unsigned total, unsigned wmode, unsigned rmode )
{
   HIST = std::string( "two threads, " ) + name + " cap=" + std::to_string( cap ) + " total=" + std::to_string( total ) + " write mode " + std::to_string( wmode ) + " read mode " + std::to_string( rmode );
   life_on = false;
   FIFO *q = RingBuffer< T, Type::Heap, false >::make_new_fifo( cap, 16, nullptr );
   auto *f = static_cast< RingBuffer< T, Type::Heap, false > * >( q );
   ptr_map_t in; ptr_set_t out, in_peek, out_peek;
   f->setPtrMap( &in ); f->setPtrSet( &out ); f->setInPeekSet( &in_peek ); f->setOutPeekSet( &out_peek );
   auto sig = []( unsigned i ){ return (int)( i % 7 == 3 ? 10 + i % 13 : 0 ); };
   alarm( 20 );
   std::thread p( [&]()
   {
      unsigned i = 0;
      while( i < total )
      {
         unsigned m = wmode == 9 ? i % 3 : wmode;
         if( m == 0 ){ T t( (std::uint64_t)( i + 1 ) ); q->push< T >( t, static_cast< raft::signal >( sig( i ) ) ); i++; }
         else if( m == 1 ){ if constexpr( is_cls< T > ) q->allocate< T >( std::uint64_t( i + 1 ) ); else q->allocate< T >() = i + 1; q->send( static_cast< raft::signal >( sig( i ) ) ); i++; }
         else { if constexpr( !is_cls< T > ){ unsigned n = 1 + i % cap; if( n > total - i ) n = total - i; auto a( q->allocate_range< T >( n ) ); unsigned j = i; for( auto &x : a ) x.get() = ++j; q->send_range( static_cast< raft::signal >( sig( i ) ) );
                for( unsigned k = 1; k < n; k++ ) {} i += n; } else { T t( (std::uint64_t)( i + 1 ) ); q->push< T >( t, static_cast< raft::signal >( sig( i ) ) ); i++; } }
         if( f->space_avail() > cap ) FAIL( "C02 C08", "producer saw more free space than the capacity" );
      }
      q->invalidate();
   } );
   unsigned i = 0; bool bad = false;
   try
   {
      for( ;; )
      {
         raft::signal s = raft::none; std::uint64_t v; bool hs = true;
         unsigned m = rmode == 9 ? i % 4 : rmode;
         auto sz = f->size();
         if( sz > cap ) FAIL( "C02 C08", "consumer saw more elements than the capacity" );
         if( m == 0 ){ T t( (std::uint64_t) 0 ); q->pop< T >( t, &s ); v = (std::uint64_t) t; }
         else if( m == 1 ){ v = (std::uint64_t) q->peek< T >( &s ); q->unpeek(); if( is_big< T > ){ T t( (std::uint64_t) 0 ); q->pop< T >( t ); } else q->recycle( 1 ); }
         else if( m == 2 && !is_big< T > ){ auto a( q->pop_s< T >() ); v = (std::uint64_t) *a; s = a.sig(); }
         else if constexpr( !is_big< T > ){ { auto a( q->peek_range< T >( 1 ) ); v = (std::uint64_t) a[ 0 ].ele; s = a[ 0 ].sig; } q->recycle( 1 ); }
         else { T t( (std::uint64_t) 0 ); q->pop< T >( t, &s ); v = (std::uint64_t) t; }
         if( v != i + 1 ) FAIL( "C08 C01 C07", "consumed %lu at position %u, published %u", (unsigned long) v, i, i + 1 );
         if( hs && wmode < 2 && (int) s != sig( i ) ) FAIL( "C08 C03", "consumed signal %d at position %u, sent %d", (int) s, i, sig( i ) );
         i++;
      }
   }
   catch( ClosedPortAccessException & ){ if( i != total ) FAIL( "C07 C08 C01", "closed port reported after %u of %u elements", i, total ); }
   catch( NoMoreDataException & ){ if( i != total ) FAIL( "C07 C08 C01", "no more data reported after %u of %u elements", i, total ); }
   catch( Stop & ){ bad = true; }
   if( bad ) _exit( 0 );
   p.join();
   if( f->datamanager.get()->write_stats.bec.count != total ) FAIL( "C11 C08", "write count" );
   delete q;
   life_on = true;
}

#ifdef LIFE
// a kernel between two streams of objects stored out of line, which may pass on the elements it looked at; its
// in-flight sets are cleaned up by the scheduler after every call
template < class T > void chain()
{
   HIST = "chain: "; ALIVE.clear(); life_on = true; phase_dl = 0;
   T::reuse = rnd( 2 );
   for( auto *p : T::spare() ) ::operator delete( p );
   T::spare().clear();
   if( T::reuse ) HIST += "(freed memory is used again) ";
   using RB = RingBuffer< T, Type::Heap, false >;
   struct Sets { ptr_map_t in; ptr_set_t out, peek; };
   Sets src, k, dst;
   const unsigned nout = 1 + rnd( 2 );
   std::vector< RB* > q;                          // q[ 0 ]: into the kernel, the others: out of it
   std::vector< std::deque< std::uint64_t > > m( 1 + nout );
   for( unsigned i = 0; i <= nout; i++ )
   {
      auto *f = static_cast< RB* >( RB::make_new_fifo( 1 + rnd( 4 ), 16, nullptr ) );
      f->setPtrMap( i ? &dst.in : &k.in ); f->setInPeekSet( i ? &dst.peek : &k.peek );
      f->setPtrSet( i ? &k.out : &src.out ); f->setOutPeekSet( i ? &k.peek : &src.peek );
      q.push_back( f );
   }
   auto gc = []( Sets &s, const char *w ){ HIST += std::string( w ) + ".clean-up; "; alarm( 10 ); Schedule::fifo_gc( &s.in, &s.out, &s.peek ); };
   bool owed = false;                             // the head of q[ 0 ] was passed on and must be taken off
   auto verify = [&]()
   {
      for( unsigned i = 0; i <= nout; i++ )
      {
         auto *d = q[ i ]->datamanager.get();
         const std::size_t rp( Pointer::val( d->read_pt ) );
         REQ( "C01 C06", q[ i ]->size() == m[ i ].size(), "stream %u holds %zu elements, %zu expected", i, q[ i ]->size(), m[ i ].size() );
         for( std::size_t j = ( i == 0 && owed ) ? 1 : 0; j < m[ i ].size(); j++ )
         {
            T *o = reinterpret_cast< T** >( d->store )[ ( rp + j ) % d->max_cap ];
            REQ( "C06", ALIVE.count( o ), "element %zu of stream %u was destroyed while it is in the stream", j, i );
            for( unsigned a = 0; a <= nout; a++ )
            {
               auto *e = q[ a ]->datamanager.get();
               const std::size_t ra( Pointer::val( e->read_pt ) );
               for( std::size_t b = 0; b < m[ a ].size(); b++ )
                  if( a && i && ( a != i || b != j ) ) REQ( "C06", reinterpret_cast< T** >( e->store )[ ( ra + b ) % e->max_cap ] != o, "streams %u and %u share an element", i, a );
            }
            REQ( "C01 C06", (std::uint64_t) *o == m[ i ][ j ], "element %zu of stream %u has the wrong value", j, i );
         }
      }
   };
   std::uint64_t next = 1;
   auto room = [&]( unsigned i ){ return q[ i ]->space_avail() > 0; };
   auto put = [&]( unsigned i, const T &t ){ HIST += "push to " + std::to_string( i ) + "; "; m[ i ].push_back( t.v ); q[ i ]->template push< T >( t ); };
   for( unsigned step = 0; step < 30; step++ )
   {
      alarm( 10 );
      switch( rnd( 4 ) )
      {
         case 0: if( room( 0 ) ){ T t( next++ ); put( 0, t ); } break;
         case 1: case 2:
            for( unsigned j = rnd( 4 ); j > 0; j-- )
            {
               if( m[ 0 ].empty() ) break;
               const unsigned o = 1 + rnd( nout );
               const unsigned w = rnd( 5 );
               if( w < 3 && room( o ) && !owed )
               {
                  HIST += "peek; ";
                  auto &a( q[ 0 ]->template peek< T >() );
                  owed = true;
                  put( o, a );
                  const unsigned o2 = 1 + rnd( nout );
                  if( rnd( 4 ) == 0 && room( o2 ) ) put( o2, a );
                  q[ 0 ]->unpeek();
               }
               else if( w == 3 && !owed )
               {
                  HIST += "peek; unpeek; ";
                  q[ 0 ]->template peek< T >(); q[ 0 ]->unpeek();
               }
               if( rnd( 3 ) )
               {
                  if( owed || rnd( 3 ) ){ HIST += "recycle; "; q[ 0 ]->recycle(); }
                  else if( rnd( 2 ) && room( 1 ) )
                  {
                     HIST += "pop to a new object; "; T t( (std::uint64_t) 0 ); q[ 0 ]->template pop< T >( t ); REQ( "C01 C06", t.v == m[ 0 ].front(), "wrong element" );
                     auto *n = new T( t ); put( 1, *n ); delete n;
                  }
                  else { HIST += "pop; "; T t( (std::uint64_t) 0 ); q[ 0 ]->template pop< T >( t ); REQ( "C01 C06", t.v == m[ 0 ].front(), "wrong element" ); }
                  m[ 0 ].pop_front(); owed = false;
               }
            }
            gc( k, "kernel" ); verify();
            REQ( "C06", k.in.empty() && k.peek.empty(), "addresses are still noted after the clean-up" );
            break;
         case 3:
         {
            const unsigned o = 1 + rnd( nout );
            if( m[ o ].empty() ) break;
            if( rnd( 2 ) ){ HIST += "pop from " + std::to_string( o ) + "; "; T t( (std::uint64_t) 0 ); q[ o ]->template pop< T >( t ); REQ( "C01 C06", t.v == m[ o ].front(), "wrong element" ); }
            else { HIST += "recycle from " + std::to_string( o ) + "; "; q[ o ]->recycle(); gc( dst, "end" ); }
            m[ o ].pop_front();
         } break;
      }
      verify();
   }
   alarm( 10 );
   while( !m[ 0 ].empty() ){ HIST += "recycle; "; q[ 0 ]->recycle(); m[ 0 ].pop_front(); gc( k, "kernel" ); verify(); }
   for( unsigned o = 1; o <= nout; o++ ) while( !m[ o ].empty() ){ HIST += "recycle from " + std::to_string( o ) + "; "; q[ o ]->recycle(); m[ o ].pop_front(); gc( dst, "end" ); verify(); }
   REQ( "C06", ALIVE.empty(), "%zu element objects never destroyed", ALIVE.size() );
   for( auto *f : q ) delete f;
   T::reuse = false;
}
#endif

int main( int c, char **v )
{
   PROP = c > 1 ? v[ 1 ] : "all";
   std::uint64_t seed = c > 2 ? strtoull( v[ 2 ], 0, 0 ) : 1;
   double secs = c > 3 ? atof( v[ 3 ] ) : 5;
   rng.seed( seed );
   for( int s : { SIGALRM, SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL } ) ::signal( s, on_sig );
   auto t0 = std::chrono::steady_clock::now();
   auto el = [&](){ return std::chrono::duration< double >( std::chrono::steady_clock::now() - t0 ).count(); };
   unsigned long n = 0;
   if( c > 6 )
   {
      std::size_t cap = strtoull( v[ 4 ], 0, 0 ), rp = strtoull( v[ 5 ], 0, 0 ), cnt = strtoull( v[ 6 ], 0, 0 );
      for( int i = 0; i < 200; i++ ){ episode< std::uint64_t >( "uint64", cap, rp, cnt ); if( cap < 1000 ){ episode< Item >( "Item(inline class)", cap, rp, cnt ); episode< Big >( "Big(external)", cap, rp, cnt ); } n++; }
   }
   bool conc = PROP == "C08" || PROP == "C07" || PROP == "C02" || PROP == "C18" || PROP == "all";
   for( unsigned k = 1; k < 8; k++ ) external_memory( k );
   while( el() < secs )
   {
      for( int k = 0; k < 40; k++ )
      {
         std::size_t cap = 1 + rnd( 6 );
         episode< std::uint64_t >( "uint64", cap, rnd( 8 ), rnd( cap + 1 ) );
         episode< Item >( "Item(inline class)", cap, rnd( 8 ), rnd( cap + 1 ) );
         episode< Big >( "Big(external)", cap, rnd( 8 ), rnd( cap + 1 ) );
         n += 3;
#ifdef LIFE
         try { chain< Big >(); } catch( Stop & ){}
         n++;
#endif
      }
      if( conc )
      {
         unsigned m[] = { 0, 1, 2, 9 }, r[] = { 0, 1, 2, 3, 9 };
         concurrent< std::uint64_t >( "uint64", 1 + rnd( 4 ), 300, m[ rnd( 4 ) ], r[ rnd( 5 ) ] );
         concurrent< Item >( "Item", 1 + rnd( 4 ), 300, m[ rnd( 4 ) ], r[ rnd( 5 ) ] );
         concurrent< Big >( "Big", 1 + rnd( 4 ), 300, m[ rnd( 4 ) ], r[ rnd( 5 ) ] );
         n += 3;
      }
   }
   printf( "%lu histories, no disagreement\n", n );
   return 0;
}
