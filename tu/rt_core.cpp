// The run-time layer (ports, kernels, linking, allocation, scheduling): RaftLib's own sources plus
// layout constants.  UKernel / UFifo stand for an arbitrary user kernel / an arbitrary stream: their
// member functions are only declared, the verifier attaches the interface contracts to them.
#include <raft>
#include <cstddef>
#include "src/schedule.cpp"
#include "src/simpleschedule.cpp"
#include "src/port.cpp"
#include "src/portiterator.cpp"
#include "src/port_info.cpp"
#include "src/kernel.cpp"
#include "src/kernel_wrapper.cpp"
#include "src/kpair.cpp"
#include "src/kernel_pair_t.cpp"
#include "src/mapbase.cpp"
#include "src/map.cpp"
#include "src/allocate.cpp"
#include "src/stdalloc.cpp"
#include "src/graphtools.cpp"
#include "src/roundrobin.cpp"
#include "src/parallelk.cpp"
#include "src/systemsignalhandler.cpp"
#include "src/fifo.cpp"

struct UKernel : public raft::kernel
{
   virtual void vkey();
   raft::kstatus run() override;
   raft::kernel* clone() override;
};
void UKernel::vkey(){}

struct UFifo : public FIFO
{
   virtual void vkey();
   std::size_t size() override;
   std::size_t space_avail() override;
   std::size_t capacity() override;
   void deallocate() override;
   void send( const raft::signal signal ) override;
   void send_range( const raft::signal signal ) override;
   void unpeek() override;
   void resize( const std::size_t n_items, const std::size_t align, volatile bool &exit_alloc ) override;
   float get_frac_write_blocked() override;
   std::size_t get_suggested_count() override;
   void invalidate() override;
   bool is_invalid() override;
   void setPtrMap( ptr_map_t * const in ) override;
   void setPtrSet( ptr_set_t * const out ) override;
   void setInPeekSet( ptr_set_t * const peekset ) override;
   void setOutPeekSet( ptr_set_t * const peekset ) override;
protected:
   raft::signal signal_peek() override;
   void signal_pop() override;
   void inline_signal_send( const raft::signal sig ) override;
   void local_allocate( void **ptr ) override;
   void local_allocate_n( void *ptr, const std::size_t n ) override;
   void local_push( void *ptr, const raft::signal &signal ) override;
   void local_insert( void *ptr_begin, void *ptr_end, const raft::signal &signal, const std::size_t iterator_type ) override;
   void local_pop( void *ptr, raft::signal *signal ) override;
   void local_pop_range( void *ptr_data, const std::size_t n_items ) override;
   void local_peek( void **ptr, raft::signal *signal ) override;
   void local_peek_range( void **ptr, void **sig, const std::size_t n_items, std::size_t &curr_pointer_loc ) override;
   void local_recycle( std::size_t range ) override;
};
void UFifo::vkey(){}

#define K( name, val ) extern "C" { extern const std::uint64_t name; const std::uint64_t name = ( val ); }
using NODE = std::pair< const raft::port_key_type, PortInfo >;
K( K_SIZE, sizeof( raft::kernel ) )
K( K_INPUT, offsetof( raft::kernel, input ) )
K( K_OUTPUT, offsetof( raft::kernel, output ) )
K( K_INTERNAL, offsetof( raft::kernel, internal_alloc ) )
K( K_CORE, offsetof( raft::kernel, core_assign ) )
K( K_AFFINITY, offsetof( raft::kernel, affinity_group ) )
K( K_SCHED, offsetof( raft::kernel, sched_behav ) )
K( K_DUPEN, offsetof( raft::kernel, dup_enabled ) )
K( K_DUPCAND, offsetof( raft::kernel, dup_candidate ) )
K( K_ID, offsetof( raft::kernel, kernel_id ) )
K( K_DONE, offsetof( raft::kernel, execution_done ) )
K( K_ENABLED, offsetof( raft::kernel, enabled_port ) )
K( P_SIZE, sizeof( Port ) )
K( P_PORTMAP, offsetof( Port, portmap ) )
K( P_MAP, offsetof( Port, portmap ) + offsetof( portmap_t, map ) )
K( P_MUTEX, offsetof( Port, portmap ) + offsetof( portmap_t, mutex_map ) )
K( P_KERNEL, offsetof( Port, kernel ) )
K( P_ALLOC, offsetof( Port, alloc_ptr ) )
K( P_ALLOCLEN, offsetof( Port, alloc_ptr_length ) )
K( N_HEAD, sizeof( std::_Rb_tree_node_base ) )
K( N_SIZE, sizeof( std::_Rb_tree_node_base ) + sizeof( NODE ) )
K( N_KEY, sizeof( std::_Rb_tree_node_base ) + offsetof( NODE, first ) )
K( N_INFO, sizeof( std::_Rb_tree_node_base ) + offsetof( NODE, second ) )
K( PAIR_INFO, offsetof( NODE, second ) )
K( I_SIZE, sizeof( PortInfo ) )
K( I_FIFOA, offsetof( PortInfo, fifo_a ) )
K( I_FIFOB, offsetof( PortInfo, fifo_b ) )
K( I_TYPE, offsetof( PortInfo, type ) )
K( I_CONSTMAP, offsetof( PortInfo, const_map ) )
K( I_SPLIT, offsetof( PortInfo, split_func ) )
K( I_JOIN, offsetof( PortInfo, join_func ) )
K( I_MYKERNEL, offsetof( PortInfo, my_kernel ) )
K( I_MYNAME, offsetof( PortInfo, my_name ) )
K( I_OTHERKERNEL, offsetof( PortInfo, other_kernel ) )
K( I_OTHERNAME, offsetof( PortInfo, other_name ) )
K( I_USEMY, offsetof( PortInfo, use_my_allocator ) )
K( I_OOO, offsetof( PortInfo, out_of_order ) )
K( I_MEM, offsetof( PortInfo, mem ) )
K( I_SZMEM, sizeof( PortInfo::mem ) )
K( I_EXISTING, offsetof( PortInfo, existing_buffer ) )
K( I_NITEMS, offsetof( PortInfo, nitems ) )
K( I_START, offsetof( PortInfo, start_index ) )
K( I_FIXED, offsetof( PortInfo, fixed_buffer_size ) )
K( IT_SIZE, sizeof( PortIterator ) )
K( T_SIZE, sizeof( simple_schedule::thread_info_t ) )
K( T_FIN, offsetof( simple_schedule::thread_info_t, finished ) )
K( T_TERM, offsetof( simple_schedule::thread_info_t, term ) )
K( T_DATA, offsetof( simple_schedule::thread_info_t, data ) )
K( T_TH, offsetof( simple_schedule::thread_info_t, th ) )
K( D_SIZE, sizeof( simple_schedule::thread_data ) )
K( D_K, offsetof( simple_schedule::thread_data, k ) )
K( D_FIN, offsetof( simple_schedule::thread_data, finished ) )
K( D_LOC, offsetof( simple_schedule::thread_data, loc ) )
K( S_SIZE, sizeof( simple_schedule ) )
K( S_ALL, sizeof( Schedule ) - 4 * sizeof( void* ) )
K( S_TMAP, offsetof( simple_schedule, thread_map ) )
K( S_MUTEX, offsetof( simple_schedule, thread_map_mutex ) )
K( KP_SIZE, sizeof( kernelkeeper ) )
K( KP_SET, offsetof( kernelkeeper, container ) )
K( KP_MUTEX, offsetof( kernelkeeper, mutex ) )
K( V_STOP, raft::stop )
K( V_PROCEED, raft::proceed )
K( V_ANYPORT, raft::any_port )
K( V_ALLPORT, raft::all_port )
K( V_MAXSIG, raft::MAX_SYSTEM_SIGNAL )
K( V_SZSTATUS, sizeof( raft::kstatus ) )
K( V_SZSIGNAL, sizeof( raft::signal ) )
K( V_HEAP, Type::Heap )
