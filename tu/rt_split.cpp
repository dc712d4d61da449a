// Split and join kernels, the distribution methods they use and the helpers of parallel kernels.
// UMethod stands for an arbitrary user-written distribution method: its choice of stream is only declared.
#include "rt_ports.cpp"
#include "src/signal.cpp"
struct UMethod : public splitmethod
{
   virtual void vkey();
   FIFO* select_fifo( Port &port_list, const functype type ) override;
};
void UMethod::vkey(){}
template class raft::split< ELT, UMethod >;
template class raft::join< ELT, UMethod >;
template class raft::split< ELT, roundrobin >;
template class raft::join< ELT, roundrobin >;
extern "C" {
#ifndef VF_CLASS_ELT
bool vf_send( UMethod &m, ELT &item, const raft::signal s, Port &p ){ return m.send( item, s, p ); }
#endif
bool vf_get( UMethod &m, ELT &item, raft::signal &s, Port &p ){ return m.get( item, s, p ); }
auto vf_range( UMethod &m, FIFO &in, const std::size_t n, Port &p ){ auto r( in.peek_range< ELT >( n ) ); return m.send( r, p ); }
std::size_t vf_addto( raft::parallel_k &k, Port &p ){ return k.addPortTo< ELT >( p ); }
}
using SPLIT_U = raft::split< ELT, UMethod >;
using JOIN_U = raft::join< ELT, UMethod >;
K( W_SPLIT_U, sizeof( raft::split< ELT, UMethod > ) )
K( W_SPLIT_F, offsetof( SPLIT_U, split_func ) )
K( W_JOIN_F, offsetof( JOIN_U, split_func ) )
K( W_NAMEIDX, offsetof( raft::parallel_k, port_name_index ) )
K( W_SENDTYPE, splitmethod::sendtype )
K( W_GETTYPE, splitmethod::gettype )
K( SZ_SIGNAL, sizeof( Buffer::Signal ) )
K( OFF_SIG_SIG, offsetof( Buffer::Signal, sig ) )
K( OFF_SIG_INDEX, offsetof( Buffer::Signal, index ) )
K( SZ_SIG_SIG, sizeof( Buffer::Signal::sig ) )
#ifdef VF_CLASS_ELT
K( W_CLASS_ELT, 1 )
#endif
