// Ports: the run-time layer plus instantiations of the port templates for std::uint64_t and small clients
// (the clients only drive the real iterators and templates; every statement that does something is RaftLib's).
#include "rt_core.cpp"
#define TI( name, T ) extern "C" { extern const std::type_info * const name; const std::type_info * const name = &typeid( T ); }
TI( TI_PNF, PortNotFoundException )
TI( TI_AMB, AmbiguousPortAssignmentException )
TI( TI_EXISTS, PortAlreadyExists )
TI( TI_U64, std::uint64_t )
TI( TI_UK, UKernel )
extern "C" void vf_visit( FIFO &f );
extern "C" void vf_visit_named( FIFO &f, const std::string &name );
#ifndef VF_CLASS_ELT
using ELT = std::uint64_t;
#else
/** an arbitrary class kept inline: its special members are only declared **/
struct CItem
{
   CItem();
   CItem( const CItem &o );
   CItem& operator =( const CItem &o );
   ~CItem();
   std::uint64_t v;
};
using ELT = CItem;
#endif
extern "C" {
void vf_iterate( Port &p ){ for( auto &f : p ) vf_visit( f ); }
void vf_iterate_names( Port &p ){ for( auto it( p.begin() ); it != p.end(); ++it ) vf_visit_named( *it, it.name() ); }
void vf_add1( Port &p, const std::string &a ){ p.addPort< ELT >( a ); }
void vf_add2( Port &p, const std::string &a, const std::string &b ){ p.addPort< ELT >( a, b ); }
void vf_addlit( Port &p ){ p.addPort< ELT >( "x", "7" ); }
raft::kernel *vf_split( Port &p, PortInfo &i ){ p.initializeSplit< ELT >( i ); return i.split_func(); }
raft::kernel *vf_join( Port &p, PortInfo &i ){ p.initializeJoin< ELT >( i ); return i.join_func(); }
}
K( W_SPLIT, sizeof( raft::split< ELT, roundrobin > ) )
K( W_JOIN, sizeof( raft::join< ELT, roundrobin > ) )
