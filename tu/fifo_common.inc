// Explicit instantiations of RaftLib's own templates plus layout constants.
// No function body in this file: everything verified comes from /repo.
#include <cstdint>
#include <cstddef>
#include <vector>
#include <list>
#include <array>
#include <map>
#include <functional>
#include <typeinfo>
#include <string>
#include <iostream>
#include <cassert>
#include "fifo.hpp"
#include "ringbuffer.tcc"
#include "pointer.hpp"

using RB  = RingBuffer< ELEM, Type::Heap, false >;
using RBM = RingBuffer< ELEM, Type::Heap, true >;
template class RingBuffer< ELEM, Type::Heap, false >;
template class RingBuffer< ELEM, Type::Heap, true >;
using DATA = Buffer::Data< ELEM, Type::Heap >;
using DM   = DataManager< ELEM, Type::Heap >;
template class DataManager< ELEM, Type::Heap >;

#define K( name, val ) extern "C" { extern const std::uint64_t name; const std::uint64_t name = ( val ); }
K( SZ_RB, sizeof( RB ) )
K( SZ_RBM, sizeof( RBM ) )
K( SZ_DATA, sizeof( DATA ) )
K( SZ_SIGNAL, sizeof( Buffer::Signal ) )
K( OFF_SIG_SIG, offsetof( Buffer::Signal, sig ) )
K( OFF_SIG_INDEX, offsetof( Buffer::Signal, index ) )
K( SZ_SIG_SIG, sizeof( Buffer::Signal::sig ) )
K( OFF_DM, offsetof( RB, datamanager ) )
K( OFF_DM_BUFFER, offsetof( RB, datamanager ) + offsetof( DM, buffer ) )
K( OFF_DM_RESIZING, offsetof( RB, datamanager ) + offsetof( DM, resizing ) )
K( OFF_DM_RESIZEABLE, offsetof( RB, datamanager ) + offsetof( DM, resizeable ) )
K( OFF_DM_TA, offsetof( RB, datamanager ) + offsetof( DM, thread_access ) )
K( OFF_DM_CHECKING, offsetof( RB, datamanager ) + offsetof( DM, checking_size ) )
K( OFF_ALLOCATE_CALLED, offsetof( RB, producer_data.allocate_called ) )
K( OFF_N_ALLOCATED, offsetof( RB, producer_data.n_allocated ) )
K( OFF_OUT, offsetof( RB, producer_data.out ) )
K( OFF_OUT_PEEK, offsetof( RB, producer_data.out_peek ) )
K( OFF_WRITE_STATS_PTR, offsetof( RB, producer_data.write_stats ) )
K( OFF_IN, offsetof( RB, consumer_data.in ) )
K( OFF_IN_PEEK, offsetof( RB, consumer_data.in_peek ) )
K( OFF_READ_STATS_PTR, offsetof( RB, consumer_data.read_stats ) )
K( D_MAX_CAP, offsetof( DATA, max_cap ) )
K( D_LEN_STORE, offsetof( DATA, length_store ) )
K( D_LEN_SIGNAL, offsetof( DATA, length_signal ) )
K( D_RP, offsetof( DATA, read_pt ) )
K( D_WP, offsetof( DATA, write_pt ) )
K( D_TA, offsetof( DATA, thread_access ) )
K( SZ_TA, sizeof( ThreadAccess ) )
K( D_STORE, offsetof( DATA, store ) )
K( D_SIGNAL, offsetof( DATA, signal ) )
K( D_EXT, offsetof( DATA, external_alloc ) )
K( D_VALID, offsetof( DATA, is_valid ) )
K( D_RSTATS, offsetof( DATA, read_stats ) )
K( D_WSTATS, offsetof( DATA, write_stats ) )
K( D_FORCE, offsetof( DATA, force_resize ) )
K( P_A, offsetof( Pointer, a ) )
K( P_WRAP, offsetof( Pointer, wrap_a ) )
K( P_CAP, offsetof( Pointer, max_cap ) )
K( B_BLOCKED, offsetof( Blocked, bec.blocked ) )
K( B_COUNT, offsetof( Blocked, bec.count ) )
K( B_BASE, 0 )
K( SZ_ELEM, sizeof( ELEM ) )
K( SZ_SLOT, sizeof( DATA::value_type ) )
K( SIG_NONE, raft::none )
K( SZ_FUNC_PAIR, sizeof( std::pair< const std::size_t, std::function< void( void*, void*, const raft::signal& ) > > ) )
extern "C" {
extern const std::type_info * const TI_CLOSED; const std::type_info * const TI_CLOSED = &typeid( ClosedPortAccessException );
extern const std::type_info * const TI_NOMORE; const std::type_info * const TI_NOMORE = &typeid( NoMoreDataException );
}

template void FIFO::push< ELEM >( const ELEM &, const raft::signal );
template void FIFO::push< ELEM >( const ELEM &&, const raft::signal );
template void FIFO::pop< ELEM >( ELEM &, raft::signal * );
template void FIFO::pop_range< ELEM >( pop_range_t< ELEM > &, const std::size_t );
template void FIFO::insert< std::vector< ELEM >::iterator >( std::vector< ELEM >::iterator, std::vector< ELEM >::iterator, const raft::signal );
template void FIFO::insert< std::list< ELEM >::iterator >( std::list< ELEM >::iterator, std::list< ELEM >::iterator, const raft::signal );
template ELEM& FIFO::peek< ELEM >( raft::signal * );
template std::vector< std::reference_wrapper< ELEM > > FIFO::allocate_range< ELEM >( const std::size_t );
template FIFO::autorelease< ELEM, FIFO::poptype > FIFO::pop_s< ELEM >();
template class FIFO::autorelease< ELEM, FIFO::poptype >;
template class FIFO::autorelease< ELEM, FIFO::allocatetype >;
// clients of the public API that rely on the default arguments
extern "C" {
void client_push( FIFO &f, const ELEM &e ){ f.push< ELEM >( e ); }
void client_send( FIFO &f ){ f.send(); }
void client_send_range( FIFO &f ){ f.send_range(); }
void client_recycle( FIFO &f ){ f.recycle(); }
void client_pop( FIFO &f, ELEM &e ){ f.pop< ELEM >( e ); }
}
// the library sources these templates call
#include "src/pointer.cpp"
#include "src/signal.cpp"
#include "src/blocked.cpp"
#include "src/fifo.cpp"
