// The ready-made kernels.  UOut stands for an arbitrary output iterator of the user: its members are only declared.
#include "rt_split.cpp"
#include "raftinc/readeach.tcc"
#include "raftinc/writeeach.tcc"
#include "raftinc/print.tcc"
#include "raftinc/lambdak.tcc"
#include "raftinc/foreach.tcc"
struct UOut
{
   UOut& operator *();
   UOut& operator =( const ELT &v );
   UOut& operator ++();
   std::size_t id;
};
using RE = raft::readeach< ELT, const ELT* >;
using WE = raft::writeeach< ELT, UOut >;
using PR = raft::print< ELT, '#' >;
using PR0 = raft::print< ELT, '\0' >;
using L1 = raft::lambdak< ELT >;
using L3 = raft::lambdak< ELT, std::int32_t, ELT >;
using FE = raft::for_each< ELT >;
template class raft::readeach< ELT, const ELT* >;
template class raft::writeeach< ELT, UOut >;
template class raft::print< ELT, '#' >;
template class raft::print< ELT, '\0' >;
template class raft::lambdak< ELT >;
template class raft::lambdak< ELT, std::int32_t, ELT >;
template class raft::for_each< ELT >;
TI( TI_I32, std::int32_t )
K( W_RE_BEGIN, offsetof( RE, begin ) )
K( W_RE_END, offsetof( RE, end ) )
K( W_WE_INS, offsetof( WE, inserter ) )
K( W_PR_OFS, offsetof( PR, ofs ) )
K( W_PR0_OFS, offsetof( PR0, ofs ) )
K( W_PR_CNT, offsetof( PR, input_port_count ) )
K( W_PR0_CNT, offsetof( PR0, input_port_count ) )
K( W_L1_FUNC, offsetof( L1, run_func ) )
K( SZ_RE, sizeof( RE ) )
K( SZ_PR, sizeof( PR ) )
