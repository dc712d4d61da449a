// Linking: the run-time layer plus instantiations of the linking templates.
#include "rt_core.cpp"
#include "src/dynalloc.cpp"
#define TI( name, T ) extern "C" { extern const std::type_info * const name; const std::type_info * const name = &typeid( T ); }
TI( TI_PNF, PortNotFoundException )
TI( TI_AMB, AmbiguousPortAssignmentException )
TI( TI_DBL, PortDoubleInitializeException )
TI( TI_TYPE, PortTypeMismatchException )
TI( TI_UNC, PortUnconnectedException )
TI( TI_UK, UKernel )
template kernel_pair_t MapBase::link< raft::order::in >( raft::kernel*, raft::port_key_type, raft::kernel*, raft::port_key_type, const std::size_t );
template kernel_pair_t MapBase::link< raft::order::out >( raft::kernel*, raft::port_key_type, raft::kernel*, raft::port_key_type, const std::size_t );
K( M_SIZE, sizeof( raft::map ) )
K( M_SRC, offsetof( raft::map, source_kernels ) )
K( M_DST, offsetof( raft::map, dst_kernels ) )
K( M_ALL, offsetof( raft::map, all_kernels ) )
K( M_INT, offsetof( raft::map, internally_created_kernels ) )
K( M_SUB, offsetof( raft::map, sub_maps ) )
K( R_SIZE, sizeof( kernel_pair_t ) )
K( R_SRC, offsetof( kernel_pair_t, source ) )
K( R_DST, offsetof( kernel_pair_t, destination ) )
K( L_SIZE, sizeof( kpair ) )
K( L_NEXT, offsetof( kpair, next ) )
K( L_HEAD, offsetof( kpair, head ) )
K( L_SRC, offsetof( kpair, src ) )
K( L_HASSRC, offsetof( kpair, has_src_name ) )
K( L_SRCNAME, offsetof( kpair, src_name ) )
K( L_DST, offsetof( kpair, dst ) )
K( L_HASDST, offsetof( kpair, has_dst_name ) )
K( L_DSTNAME, offsetof( kpair, dst_name ) )
K( L_BUF, offsetof( kpair, buffer_size ) )
K( L_SPLIT, offsetof( kpair, split_to ) )
K( L_OUTS, offsetof( kpair, src_out_count ) )
K( L_JOIN, offsetof( kpair, join_from ) )
K( L_INS, offsetof( kpair, dst_in_count ) )
K( L_OOO, offsetof( kpair, out_of_order ) )
K( A_SIZE, sizeof( stdalloc ) )
K( A_SRC, sizeof( void* ) )
K( A_FIFOS, offsetof( stdalloc, allocated_fifo ) )
template raft::kernel_wrapper raft::kernel::make< UKernel >();
TI( TI_NSH, NoSignalHandlerFoundException )
K( V_QUIT, raft::quit )
K( S_HANDLERS, offsetof( simple_schedule, handlers ) )
// start-up over an arbitrary partitioner, scheduler, allocator and parallelism monitor (every member under contract)
struct XPart { XPart(); ~XPart(); void partition( kernelkeeper & ); };
struct XAlloc : public Allocate { XAlloc( raft::map &m, volatile bool &e ) : Allocate( m, e ){} virtual ~XAlloc(){} virtual void run() override {} };
struct XSched : public Schedule { XSched( raft::map &m ) : Schedule( m ){} virtual ~XSched(){} virtual void start() override {} virtual void init() override {}
   virtual void handleSchedule( raft::kernel * const ) override {} };
struct XPar { XPar( raft::map &, Allocate &, Schedule &, volatile bool & ); ~XPar(); void start(); };
template void raft::map::exe< XPart, XSched, XAlloc, XPar >();
K( A_READY, offsetof( stdalloc, ready ) )
K( A_ALIGN, ALLOC_ALIGN_WIDTH )
K( YD_SIZE, sizeof( dynalloc ) )
