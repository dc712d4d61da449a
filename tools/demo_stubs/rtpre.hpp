#ifdef RT_OPEN   /* let a demonstration look at internals */
#include <bits/stdc++.h>
#define private public
#define protected public
#endif
#include <raft>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <queue>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
#include "src/schedule.cpp"
#include "src/simpleschedule.cpp"
#include "src/port.cpp"
#include "src/portiterator.cpp"
#include "src/port_info.cpp"
#include "src/kernel.cpp"
#include "src/kernel_wrapper.cpp"
#include "src/kpair.cpp"
#include "src/kernel_pair_t.cpp"
#include "src/mapbase.cpp"
#include "src/map.cpp"
#include "src/allocate.cpp"
#include "src/stdalloc.cpp"
#include "src/dynalloc.cpp"
#include "src/graphtools.cpp"
#include "src/roundrobin.cpp"
#include "src/systemsignalhandler.cpp"
#include "src/fifo.cpp"
#include "src/common.cpp"
#include "src/raftexception.cpp"
#include "src/portexception.cpp"
#include "src/kernelexception.cpp"
#include "src/mapexception.cpp"
#include "src/pointer.cpp"
#include "src/signal.cpp"
#include "src/blocked.cpp"
#include "src/noparallel.cpp"
#include "src/basicparallel.cpp"
#include "src/partition_dummy.cpp"
#include "src/submap.cpp"
#include "src/parallelk.cpp"
#include "src/makedot.cpp"
void raft::affinity::set( const std::size_t ){}
namespace raft { std::string demangle( const char *n ){ return n; } }
#define CHECK( c ) do{ if( !( c ) ){ std::fprintf( stderr, "line %d: %s\n", __LINE__, #c ); std::exit( 1 ); } }while( 0 )
using u64 = std::uint64_t;
