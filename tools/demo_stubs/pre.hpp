#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <atomic>
#include <chrono>
#include <deque>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
#include "fifo.hpp"
#include "ringbuffer.tcc"
#include "src/pointer.cpp"
#include "src/signal.cpp"
#include "src/blocked.cpp"
#include "src/fifo.cpp"
#include "src/raftexception.cpp"
#include "src/portexception.cpp"
#include "src/kernelexception.cpp"
#define CHECK( c ) do{ if( !( c ) ){ std::fprintf( stderr, "line %d: %s\n", __LINE__, #c ); std::exit( 1 ); } }while( 0 )
using u64 = std::uint64_t;
template < class T > using Stream = RingBuffer< T, Type::Heap, false >;
/** as the runtime makes them **/
template < class T > FIFO *make( const std::size_t n, void * const mem = nullptr, const std::size_t pos = 16 )
{
   return( Stream< T >::make_new_fifo( n, pos, mem ) );
}
