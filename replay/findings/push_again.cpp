// Known finding C06: an element looked at and pushed to two streams.  The first stream gets the object itself; once its
// consumer has taken it, the push to the second stream copies from a destroyed and released object.
//   clang++-18 -std=gnu++17 -g -O1 -fsanitize=address -DSTRING_NAMES=1 -DL1D_CACHE_LINE_SIZE=64 -I/verif/stubs -I/repo -I/repo/raftinc -w -fno-access-control \
//      /verif/replay/findings/push_again.cpp -o /tmp/push_again -pthread && /tmp/push_again
// reports heap-use-after-free in RingBufferBase<...>::local_push.  (One thread; in a program the kernels run on three.)
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <functional>
#include <string>
#include <vector>
#include <sstream>
#include <array>
#include <iostream>
#include <cassert>
#include "fifo.hpp"
#include "ringbuffer.tcc"
#include "pointer.hpp"
#include "src/pointer.cpp"
#include "src/signal.cpp"
#include "src/blocked.cpp"
#include "src/fifo.cpp"
#include "src/raftexception.cpp"
#include "src/portexception.cpp"
#include "src/kernelexception.cpp"

struct Big
{
   Big( int v = 0 ) : v( v ) {}
   Big( const Big &o ) : v( o.v ) {}
   Big& operator=( const Big &o ){ v = o.v; return( *this ); }
   ~Big(){ v = -1; }
   int  v;
   char pad[ 200 ];
};
namespace raft { std::string demangle( const char *n ){ return n; } }

/** the sets a scheduler gives to the streams of one kernel **/
struct sets
{
   ptr_map_t in;
   ptr_set_t out, peek;
};

int main()
{
   using RB = RingBuffer< Big, Type::Heap, false >;
   sets src, fan, a, b;
   auto link = []( sets &from, sets &to )
   {
      FIFO *f( RB::make_new_fifo( 4, 16, nullptr ) );
      f->setPtrSet( &from.out ); f->setOutPeekSet( &from.peek );
      f->setPtrMap( &to.in );    f->setInPeekSet( &to.peek );
      return( f );
   };
   FIFO *in( link( src, fan ) ), *out_a( link( fan, a ) ), *out_b( link( fan, b ) );
   in->push< Big >( Big( 42 ) );
   /** the fanning kernel **/
   auto &x( in->peek< Big >() );
   out_a->push( x );
   /** kernel a **/
   Big got;
   out_a->pop( got );
   /** the fanning kernel goes on **/
   out_b->push( x );
   in->recycle( 1 );
   /** kernel b **/
   Big got_b;
   out_b->pop( got_b );
   std::cout << got.v << " " << got_b.v << "\n";
   return( got_b.v == 42 ? 0 : 1 );
}
