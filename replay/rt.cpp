// Model-based executions of the real run-time layer (scheduling, ports, linking, split/join).
//   rt <property|all> <seed> <seconds>
// Prints the history and "FAIL <property> ..." and exits 1 on the first disagreement that
// concerns the property; exits 0 when none was found in the time given.
// Used to look for a failing input when a proof obligation fails, never as the deciding step.
#include <raft>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <random>
#include <string>
#include <vector>
#include <thread>
#include <chrono>
#include <mutex>
#include <functional>
#include <iostream>
#include <cassert>
#include <sstream>
#include <memory>
#include <raftio>
#include "src/schedule.cpp"
#include "src/simpleschedule.cpp"
#include "src/port.cpp"
#include "src/portiterator.cpp"
#include "src/port_info.cpp"
#include "src/kernel.cpp"
#include "src/kernel_wrapper.cpp"
#include "src/kpair.cpp"
#include "src/kernel_pair_t.cpp"
#include "src/mapbase.cpp"
#include "src/map.cpp"
#include "src/allocate.cpp"
#include "src/partition_dummy.cpp"
#include "src/makedot.cpp"
#include "src/noparallel.cpp"
#include "src/stdalloc.cpp"
#include "src/dynalloc.cpp"
#include "src/graphtools.cpp"
#include "src/roundrobin.cpp"
#include "src/parallelk.cpp"
#include "src/systemsignalhandler.cpp"
#include "src/fifo.cpp"
#include "src/common.cpp"
#include "src/raftexception.cpp"
#include "src/portexception.cpp"
#include "src/kernelexception.cpp"
#include "src/mapexception.cpp"
#include "src/pointer.cpp"
#include "src/signal.cpp"
#include "src/blocked.cpp"
void raft::affinity::set( const std::size_t ){}
namespace raft { std::string demangle( const char *n ){ return n; } }

static std::string PROP = "all";
static std::string HIST;
static std::mutex HM;
static const char *crash_props = "C12";
static const char *hang_props  = "C12";

static void dump( const char *why, const char *prop )
{
   std::string s = "\nhistory: " + HIST + "\nFAIL " + prop + " " + why + "\n";
   ssize_t r = write( 1, s.data(), s.size() ); (void) r;
}
static bool wants( const char *props )
{
   return PROP == "all" || strstr( props, PROP.c_str() ) != nullptr;
}
struct Stop {};
#define FAIL( props, ... ) do{ if( wants( props ) ){ char b_[ 400 ]; snprintf( b_, sizeof b_, __VA_ARGS__ ); \
   dump( b_, PROP == "all" ? props : PROP.c_str() ); _exit( 1 ); } else { throw Stop(); } }while( 0 )
#define REQ( props, c, ... ) do{ if( !( c ) ) FAIL( props, __VA_ARGS__ ); }while( 0 )
extern "C" void __asan_on_error(){ dump( "memory error in the history above", wants( crash_props ) && PROP != "all" ? PROP.c_str() : crash_props ); }
static void on_sig( int s )
{
   if( s == SIGALRM )
   {
      dump( "the last operation does not return although nothing keeps it from proceeding", PROP != "all" && wants( hang_props ) ? PROP.c_str() : hang_props );
      _exit( wants( hang_props ) ? 1 : 3 );
   }
   dump( "crash in the last operation", PROP != "all" && wants( crash_props ) ? PROP.c_str() : crash_props );
   _exit( wants( crash_props ) ? 1 : 3 );
}
static void H( const std::string &s ){ std::lock_guard< std::mutex > g( HM ); if( HIST.size() > 6000 ) HIST = "..." + HIST.substr( HIST.size() - 4000 ); HIST += s + "; "; }
static std::mt19937_64 rng;
static unsigned rnd( unsigned n ){ return n ? (unsigned)( rng() % n ) : 0; }
static std::string S( long v ){ return std::to_string( v ); }

// ---------------------------------------------------------------- a scripted stream
// what the other end does is taken from the random stream at every observation
struct MF : public FIFO
{
   std::deque< std::pair< int, int > > q;    // value, signal
   bool open = true, env = false;
   int invalidated = 0, pops = 0;
   std::string nm;
   ptr_map_t *pm = nullptr; ptr_set_t *ps = nullptr, *ip = nullptr, *op = nullptr;
   int npm = 0, nps = 0, nip = 0, nop = 0;
   std::mutex mu;
   void step()
   {
      if( !env || !open ) return;
      unsigned r = rnd( 12 );
      if( r == 0 ){ q.push_back( { 7, rnd( 4 ) ? 0 : (int) raft::quit } ); H( nm + " gets an element" ); }
      else if( r == 1 ){ q.push_back( { 7, 0 } ); open = false; H( nm + " gets its last element and is closed" ); }
      else if( r == 2 ){ open = false; H( nm + " is closed upstream" ); }
   }
   std::size_t size() override { std::lock_guard< std::mutex > g( mu ); step(); return q.size(); }
   std::size_t space_avail() override { return 1000; }
   std::size_t capacity() override { return 1000; }
   void deallocate() override {}
   void send( const raft::signal ) override {}
   void send_range( const raft::signal ) override {}
   void unpeek() override {}
   void resize( const std::size_t, const std::size_t, volatile bool & ) override {}
   float get_frac_write_blocked() override { return 0; }
   std::size_t get_suggested_count() override { return 0; }
   void invalidate() override { std::lock_guard< std::mutex > g( mu ); invalidated++; open = false; H( nm + ".invalidate" ); }
   bool is_invalid() override { std::lock_guard< std::mutex > g( mu ); step(); return !open; }
   void setPtrMap( ptr_map_t * const in ) override { pm = in; npm++; }
   void setPtrSet( ptr_set_t * const out ) override { ps = out; nps++; }
   void setInPeekSet( ptr_set_t * const p ) override { ip = p; nip++; }
   void setOutPeekSet( ptr_set_t * const p ) override { op = p; nop++; }
protected:
   raft::signal signal_peek() override { std::lock_guard< std::mutex > g( mu ); if( q.empty() ) FAIL( "C12", "signal of an empty stream looked at (would block)" ); return static_cast< raft::signal >( q.front().second ); }
   void signal_pop() override { std::lock_guard< std::mutex > g( mu ); if( q.empty() ) FAIL( "C12", "signal taken from an empty stream (would block)" ); pops++; q.pop_front(); H( nm + ".signal_pop" ); }
   void inline_signal_send( const raft::signal ) override {}
   void local_allocate( void ** ) override {}
   void local_allocate_n( void *, const std::size_t ) override {}
   void local_push( void *, const raft::signal & ) override {}
   void local_insert( void *, void *, const raft::signal &, const std::size_t ) override {}
   void local_pop( void *, raft::signal * ) override {}
   void local_pop_range( void *, const std::size_t ) override {}
   void local_peek( void **, raft::signal * ) override {}
   void local_peek_range( void **, void **, const std::size_t, std::size_t & ) override {}
   void local_recycle( std::size_t ) override {}
};

static PortInfo mkinfo( MF *f )
{
   PortInfo pi( typeid( int ) );
   pi.fifo_a = pi.fifo_b = f;
   return pi;
}
static void addmock( Port &p, const std::string &n, MF *f )
{
   p.portmap.map.insert( std::make_pair( n, mkinfo( f ) ) );
}

struct MK : public raft::kernel
{
   std::vector< MF* > in, out;
   bool all = false;
   bool stopped = false, retired = false;
   int runs = 0, maxruns = 1000;
   volatile bool *fin = nullptr;
   std::function< void( MK* ) > extra;
   MK( int ni, int no, bool a, bool env ) : raft::kernel(), all( a )
   {
      sched_behav = a ? raft::all_port : raft::any_port;
      for( int i = 0; i < ni; i++ ){ auto *f = new MF(); f->nm = "in" + S( i ); f->env = env; in.push_back( f ); addmock( input, "i" + S( i ), f ); }
      for( int i = 0; i < no; i++ ){ auto *f = new MF(); f->nm = "out" + S( i ); f->env = false; out.push_back( f ); addmock( output, "o" + S( i ), f ); }
   }
   ~MK(){ for( auto *f : in ) delete f; for( auto *f : out ) delete f; }
   bool ready()
   {
      if( in.empty() ) return true;
      if( all ){ for( auto *f : in ) if( f->q.empty() ) return false; return true; }
      for( auto *f : in ) if( !f->q.empty() ) return true;
      return false;
   }
   bool all_closed(){ for( auto *f : in ) if( f->open ) return false; return true; }
   raft::kstatus run() override
   {
      runs++;
      H( "run" );
      if( stopped ) FAIL( "C12", "a kernel that asked to stop is run again" );
      if( fin && *fin ) FAIL( "C12", "a finished kernel is run" );
      if( !ready() ) FAIL( "C12", "kernel run without the input it waits for" );
      for( auto *f : out ) if( f->invalidated ) FAIL( "C12", "kernel run after its output %s was closed", f->nm.c_str() );
      if( extra ) extra( this );
      for( auto *f : in ){ unsigned t = rnd( 3 ); if( all || rnd( 3 ) ) while( t-- && !f->q.empty() ) f->q.pop_front(); }
      if( rnd( 8 ) == 0 || runs >= maxruns ){ stopped = true; H( "run returns stop" ); return raft::stop; }
      return raft::proceed;
   }
   std::string desc()
   {
      std::string s = std::string( all ? "all_port" : "any_port" ) + " kernel:";
      for( auto *f : in ) s += " " + f->nm + "[" + S( f->q.size() ) + ( f->open ? " open]" : " closed]" );
      s += " " + S( out.size() ) + " outputs";
      return s;
   }
};
static void fill( MK &k, int mode = -1 )
{
   if( mode < 0 ) mode = rnd( 4 );
   for( auto *f : k.in )
   {
      unsigned n = mode == 0 ? 0 : mode == 1 ? rnd( 2 ) : mode == 2 ? 1 + rnd( 3 ) : rnd( 4 );
      for( unsigned i = 0; i < n; i++ ) f->q.push_back( { (int) i, rnd( 4 ) ? 0 : (int) ( rnd( 2 ) ? raft::quit : raft::eof ) } );
      f->open = mode == 0 ? rnd( 4 ) == 0 : rnd( 3 ) != 0;
   }
}
static void untouched( MK &k, const std::vector< std::size_t > &n, const char *w )
{
   for( std::size_t i = 0; i < k.in.size(); i++ )
   {
      REQ( "C12", k.in[ i ]->q.size() >= n[ i ], "%s took input from %s", w, k.in[ i ]->nm.c_str() );
      REQ( "C12", !k.in[ i ]->invalidated, "%s closed the input stream %s", w, k.in[ i ]->nm.c_str() );
   }
}
static void c12_krun()
{
   bool env = rnd( 2 );
   MK k( rnd( 5 ), rnd( 4 ), rnd( 2 ), env );
   fill( k );
   H( k.desc() );
   std::vector< std::size_t > n; for( auto *f : k.in ) n.push_back( f->q.size() );
   if( !env )
   {
      alarm( 5 );
      bool a = Schedule::kernelHasInputData( &k ); H( std::string( "kernelHasInputData -> " ) + ( a ? "true" : "false" ) );
      REQ( "C12", a == k.ready(), "kernelHasInputData is %d, input available for the kernel: %d", a, k.ready() );
      bool b = Schedule::kernelHasNoInputPorts( &k ); H( std::string( "kernelHasNoInputPorts -> " ) + ( b ? "true" : "false" ) );
      REQ( "C12", b == k.all_closed(), "kernelHasNoInputPorts is %d, all inputs closed: %d", b, k.all_closed() );
      alarm( 0 );
      untouched( k, n, "asking for work" );
      for( auto *f : k.out ) REQ( "C12", !f->invalidated, "asking for work closed an output" );
   }
   if( rnd( 6 ) == 0 )
   {
      H( "invalidateOutputPorts" );
      Schedule::invalidateOutputPorts( &k );
      for( auto *f : k.out ) REQ( "C12", f->invalidated, "output %s left open by invalidateOutputPorts", f->nm.c_str() );
      untouched( k, n, "closing the outputs" );
      return;
   }
   volatile bool finished = false;
   k.fin = &finished;
   for( int step = 0; step < 12 && !finished; step++ )
   {
      int r0 = k.runs;
      bool before = k.ready();
      H( "kernelRun" );
      alarm( 5 );
      bool ran = Schedule::kernelRun( &k, finished );
      alarm( 0 );
      H( std::string( ran ? "(ran)" : "(not run)" ) + ( finished ? " finished" : "" ) );
      REQ( "C12", k.runs <= r0 + 1, "kernelRun ran the kernel %d times", k.runs - r0 );
      REQ( "C12", ran == ( k.runs == r0 + 1 ), "kernelRun says the kernel %s, but it %s", ran ? "ran" : "was not run", k.runs > r0 ? "ran" : "was not run" );
      if( !env ) REQ( "C12", before == ( k.runs == r0 + 1 ), "the kernel had %s input, but it was %s", before ? "enough" : "not enough", k.runs > r0 ? "run" : "not run" );
      if( k.stopped ) REQ( "C12", finished, "the kernel asked to stop but is not retired" );
      if( finished )
      {
         for( auto *f : k.out ) REQ( "C12", f->invalidated, "the kernel is retired but its output %s is left open", f->nm.c_str() );
         if( !k.stopped )
         {
            REQ( "C12", k.all_closed(), "kernel retired while an input is still open (%s)", k.desc().c_str() );
            REQ( "C12", !k.ready(), "kernel retired with work left (%s)", k.desc().c_str() );
         }
      }
      else
      {
         for( auto *f : k.out ) REQ( "C12", !f->invalidated, "output %s closed although the kernel goes on", f->nm.c_str() );
         if( !env ) REQ( "C12", !k.all_closed() || k.ready(), "no input can arrive any more, but the kernel is not retired (%s)", k.desc().c_str() );
      }
      for( auto *f : k.in ) REQ( "C12", !f->invalidated, "the scheduler closed the input stream %s", f->nm.c_str() );
      if( env && rnd( 3 ) == 0 ) for( auto *f : k.in ) if( f->open && rnd( 2 ) ) f->open = false;
   }
}

static int gc_done;
static void c12_simple_run()
{
   MK k( rnd( 4 ), rnd( 4 ), rnd( 2 ), true );
   fill( k );
   for( auto *f : k.in ) f->open = rnd( 2 );
   k.maxruns = 30;
   H( k.desc() + " simple_run" );
   bool finished = false;
   k.fin = &finished;
   k.extra = []( MK *k )
   {
      for( auto *f : k->in ) REQ( "C06 C12", f->pm && f->ip && f->ip == k->in[ 0 ]->ip && f->pm == k->in[ 0 ]->pm, "input stream without the kernel's pointer sets" );
      for( auto *f : k->out ) REQ( "C06 C12", f->ps && f->op && f->op == k->out[ 0 ]->op && f->ps == k->out[ 0 ]->ps, "output stream without the kernel's pointer sets" );
   };
   simple_schedule::thread_data td( &k, &finished );
   alarm( 10 );
   simple_schedule::simple_run( &td );
   alarm( 0 );
   REQ( "C12", finished, "simple_run returned although the kernel is not finished" );
   for( auto *f : k.out ) REQ( "C12", f->invalidated, "the kernel is retired but its output %s is left open", f->nm.c_str() );
   if( !k.stopped )
   {
      REQ( "C12", k.all_closed(), "kernel retired while an input is still open (%s)", k.desc().c_str() );
      REQ( "C12", !k.ready(), "kernel retired with work left (%s)", k.desc().c_str() );
   }
   for( auto *f : k.in )
   {
      REQ( "C12", !f->invalidated, "the scheduler closed the input stream %s", f->nm.c_str() );
      REQ( "C06", f->npm == 1 && f->nip == 1, "input stream told of the pointer sets %d/%d times", f->npm, f->nip );
   }
   for( auto *f : k.out ) REQ( "C06", f->nps == 1 && f->nop == 1, "output stream told of the pointer sets %d/%d times", f->nps, f->nop );
   // already finished: nothing happens
   MK k2( 1, 1, false, false ); k2.in[ 0 ]->q.push_back( { 1, 0 } );
   finished = true; k2.fin = &finished;
   simple_schedule::thread_data t2( &k2, &finished );
   alarm( 5 ); simple_schedule::simple_run( &t2 ); alarm( 0 );
   REQ( "C12", k2.runs == 0 && !k2.out[ 0 ]->invalidated, "a kernel marked finished was run again" );
}

struct SK : public raft::kernel
{
   MF *o = nullptr, *i = nullptr; int left; std::atomic< int > *act; std::atomic< bool > done{ false };
   int got = 0, runs = 0, ms;
   SK( MF *in, MF *out, int n, int ms, std::atomic< int > *act ) : raft::kernel(), o( out ), i( in ), left( n ), act( act ), ms( ms )
   {
      if( in ) addmock( input, "0", in );
      if( out ) addmock( output, "0", out );
   }
   raft::kstatus run() override
   {
      runs++;
      if( ms ) std::this_thread::sleep_for( std::chrono::milliseconds( ms ) );
      if( i ){ std::lock_guard< std::mutex > g( i->mu ); if( i->q.empty() ) FAIL( "C12", "sink run without input" ); i->q.pop_front(); got++; return raft::proceed; }
      if( left-- > 0 ){ std::lock_guard< std::mutex > g( o->mu ); o->q.push_back( { left, 0 } ); return raft::proceed; }
      done = true;
      return raft::stop;
   }
};
static void c12_start()
{
   H( "start with pairs of kernels" );
   raft::map m;
   std::vector< SK* > src, dst; std::vector< MF* > fs;
   int n = 1 + rnd( 3 ); std::vector< int > cnts;
   for( int i = 0; i < n; i++ )
   {
      auto *f = new MF(); f->nm = "s" + S( i ); fs.push_back( f );
      int c = rnd( 5 ); cnts.push_back( c );
      src.push_back( new SK( nullptr, f, c, rnd( 4 ), nullptr ) );
      dst.push_back( new SK( f, nullptr, 0, rnd( 4 ), nullptr ) );
      m.all_kernels += src.back(); m.all_kernels += dst.back();
      H( S( c ) + " elements" );
   }
   {
      simple_schedule s( m );
      alarm( 20 );
      s.start();
      alarm( 0 );
      REQ( "C12", s.thread_map.size() == 2u * n, "%zu threads for %d kernels", s.thread_map.size(), 2 * n );
      for( int i = 0; i < n; i++ )
      {
         REQ( "C12", src[ i ]->runs == cnts[ i ] + 1, "a source that stops at its run %d was run %d times", cnts[ i ] + 1, src[ i ]->runs );
         REQ( "C12", dst[ i ]->got == cnts[ i ] && fs[ i ]->q.empty(), "start returned with %zu elements unread", fs[ i ]->q.size() );
         REQ( "C12", !fs[ i ]->open, "start returned with an open stream" );
      }
      for( auto *t : s.thread_map ) REQ( "C12", t->finished && t->term && !t->th.joinable(), "start returned although a kernel's thread is not joined" );
      std::set< raft::kernel* > ks; for( auto *t : s.thread_map ) ks.insert( t->data.k );
      REQ( "C12", ks.size() == 2u * n, "a kernel was scheduled twice" );
      REQ( "C12", s.thread_map_mutex.try_lock(), "thread list left locked" ); s.thread_map_mutex.unlock();
      REQ( "C12", m.all_kernels.mutex.try_lock(), "kernel set left locked" ); m.all_kernels.mutex.unlock();
   }
   for( auto *k : src ) delete k; for( auto *k : dst ) delete k; for( auto *f : fs ) delete f;
}

struct NoSched : public Schedule
{
   std::vector< raft::kernel* > hs;
   NoSched( raft::map &m ) : Schedule( m ){}
   void start() override {}
   void handleSchedule( raft::kernel * const k ) override { hs.push_back( k ); }
};
static std::vector< std::pair< FIFO*, int > > HC; static raft::kernel *HK; static void *HD; static int HR[ 8 ];
static raft::kstatus hnd( FIFO &f, raft::kernel *k, const raft::signal s, void *d )
{
   if( k != HK || d != HD ) FAIL( "C12", "handler called with the wrong kernel or data" );
   HC.push_back( { &f, (int) s } );
   return HR[ HC.size() % 8 ] ? raft::stop : raft::proceed;
}
static void c12_signals()
{
   MK k( rnd( 5 ), 2, rnd( 2 ), false );
   fill( k, 3 );
   SystemSignalHandler h;
   h.addHandler( raft::quit, hnd ); h.addHandler( raft::term, hnd ); h.addHandler( raft::eof, hnd );
   HC.clear(); HK = &k; HD = &k; for( auto &x : HR ) x = rnd( 3 ) == 0;
   std::vector< std::size_t > n; std::vector< int > sg;
   for( auto *f : k.in )
   {
      if( !f->q.empty() ){ int c[] = { 0, (int) raft::quit, (int) raft::term, (int) raft::eof, (int) raft::MAX_SYSTEM_SIGNAL, (int) raft::MAX_SYSTEM_SIGNAL + 5 }; f->q.front().second = c[ rnd( 6 ) ]; }
      n.push_back( f->q.size() ); sg.push_back( f->q.empty() ? 0 : f->q.front().second );
   }
   H( k.desc() + " checkSystemSignal" );
   auto r = Schedule::checkSystemSignal( &k, &k, h );
   std::size_t want = 0; bool stop = false;
   for( std::size_t i = 0; i < n.size(); i++ )
   {
      bool sys = n[ i ] && sg[ i ] > 0 && sg[ i ] < (int) raft::MAX_SYSTEM_SIGNAL;
      REQ( "C12", k.in[ i ]->q.size() == n[ i ] - sys, "input %zu with head signal %d: %zu elements before, %zu after", i, sg[ i ], n[ i ], k.in[ i ]->q.size() );
      if( sys )
      {
         want++;
         bool found = false;
         for( auto &c : HC ) if( c.first == k.in[ i ] && c.second == sg[ i ] ) found = true;
         REQ( "C12", found, "the handler of signal %d was not called for input %zu", sg[ i ], i );
      }
   }
   REQ( "C12", HC.size() == want, "%zu handler calls, %zu system signals", HC.size(), want );
   for( std::size_t i = 1; i <= HC.size(); i++ ) if( HR[ i % 8 ] ) stop = true;
   REQ( "C12", ( r == raft::stop ) == stop, "checkSystemSignal returned %d, a handler asked to stop: %d", (int) r, stop );
   MF q; q.nm = "q"; int d = 0;
   auto r2 = Schedule::quitHandler( q, &k, raft::quit, &d );
   REQ( "C12", q.invalidated && r2 == raft::stop, "the quit handler does not close the stream and stop" );
   raft::map m; NoSched s( m );
   MK a( rnd( 2 ), rnd( 2 ), false, false ); a.internal_alloc = rnd( 2 );
   H( "scheduleKernel " + a.desc() );
   s.scheduleKernel( &a );
   auto has = [ & ]( kernelkeeper &kk ){ bool x = kk.acquire().count( &a ); kk.release(); return x; };
   REQ( "C12", s.hs.size() == 1 && s.hs[ 0 ] == &a, "scheduleKernel did not schedule the kernel once" );
   REQ( "C12", has( m.all_kernels ), "scheduled kernel missing from the kernel set" );
   REQ( "C12", has( m.source_kernels ) == a.in.empty(), "source set wrong" );
   REQ( "C12", has( m.dst_kernels ) == a.out.empty(), "destination set wrong" );
   bool ic = has( m.internally_created_kernels ); m.internally_created_kernels.container.clear();
   REQ( "C12", ic == a.internal_alloc, "internally created set wrong" );
}

// ---------------------------------------------------------------- C13: ports
struct NK : public raft::kernel { NK() : raft::kernel(){} raft::kstatus run() override { return raft::stop; } };
struct PRef { const std::type_info *ti; FIFO *f; };
template < class T > static void chk_factories( PortInfo &pi )
{
   auto it( pi.const_map.find( Type::Heap ) );
   REQ( "C13", it != pi.const_map.end(), "no heap stream factory" );
   for( int b = 0; b < 2; b++ )
   {
      auto j( it->second->find( b ) );
      REQ( "C13", j != it->second->end() && j->second, "no %s stream factory", b ? "instrumented" : "plain" );
      FIFO *f = j->second( 4, 16, nullptr );
      REQ( "C13", b ? typeid( *f ) == typeid( RingBuffer< T, Type::Heap, true > ) : typeid( *f ) == typeid( RingBuffer< T, Type::Heap, false > ), "the %s factory makes a stream of type %s", b ? "instrumented" : "plain", typeid( *f ).name() );
      REQ( "C13", f->capacity() == 4, "the factory made a stream of capacity %zu instead of 4", f->capacity() );
      if( ! b ) delete f;     // an instrumented one has a monitor thread; leave it
   }
   raft::kernel *s = pi.split_func(), *j = pi.join_func();
   REQ( "C13", s && typeid( *s ) == typeid( raft::split< T, roundrobin > ), "split factory makes the wrong kernel" );
   REQ( "C13", j && typeid( *j ) == typeid( raft::join< T, roundrobin > ), "join factory makes the wrong kernel" );
   REQ( "C13", s && s->input.getPortType( "0" ) == typeid( T ) && s->output.count() == 1, "split factory makes the wrong kernel" );
   REQ( "C13", j && j->output.getPortType( "0" ) == typeid( T ) && j->input.count() == 1, "join factory makes the wrong kernel" );
}
static const char *excname( int e ){ const char *n[] = { "nothing", "PortNotFoundException", "AmbiguousPortAssignmentException", "PortAlreadyExists", "another exception" }; return n[ e ]; }
template < class F > static int thrown( F f )
{
   try { f(); }
   catch( const Stop & ){ throw; }
   catch( const PortNotFoundException & ){ return 1; }
   catch( const AmbiguousPortAssignmentException & ){ return 2; }
   catch( const PortAlreadyExists & ){ return 3; }
   catch( const std::exception & ){ return 4; }
   return 0;
}
static void c13_ports()
{
   static const char *names[] = { "a", "b", "ab", "0", "1", "10", "", "B", "a ", "out" };
   NK k, other;
   const bool infirst = rnd( 2 );
   Port &p = infirst ? k.input : k.output;
   Port &q = infirst ? k.output : k.input;
   std::map< std::string, PRef > ref;
   std::deque< MF > fifos;
   auto nm = [ & ](){ return std::string( names[ rnd( 10 ) ] ); };
   auto same = [ & ]( PortInfo &i, const std::string &n, const char *what )
   {
      auto it( ref.find( n ) );
      REQ( "C13", it != ref.end(), "%s of the unknown port \"%s\" returned something", what, n.c_str() );
      REQ( "C13", i.my_name == n, "%s of \"%s\" is the port named \"%s\"", what, n.c_str(), i.my_name.c_str() );
      REQ( "C13", i.type == *it->second.ti, "%s of \"%s\" has another type", what, n.c_str() );
      REQ( "C13", i.my_kernel == &k, "%s of \"%s\" belongs to another kernel", what, n.c_str() );
      REQ( "C13", i.getFIFO() == it->second.f, "%s of \"%s\" holds another stream", what, n.c_str() );
      REQ( "C13", i.other_kernel == nullptr && i.other_name == "", "%s of \"%s\" is connected", what, n.c_str() );
   };
   unsigned steps = 1 + rnd( 14 ), added = 0;
   for( unsigned st = 0; st < steps; st++ )
   {
      unsigned op = rnd( 9 );
      std::string a = nm(), b = nm();
      if( op <= 2 )
      {
         unsigned t = rnd( 3 );
         H( "addPort<" + std::string( t == 0 ? "int" : t == 1 ? "double" : "string" ) + ">(\"" + a + "\"" + ( op == 2 ? ",\"" + b + "\")" : ")" ) );
         const std::type_info *ti = t == 0 ? &typeid( int ) : t == 1 ? &typeid( double ) : &typeid( std::string );
         int e = thrown( [ & ](){
            if( op == 2 ){ if( t == 0 ) p.addPort< int >( a, b ); else if( t == 1 ) p.addPort< double >( a, b ); else p.addPort< std::string >( a, b ); }
            else { if( t == 0 ) p.addPort< int >( a ); else if( t == 1 ) p.addPort< double >( a ); else p.addPort< std::string >( a ); } } );
         bool dup = ref.count( a );
         if( ! dup ) ref[ a ] = { ti, nullptr };
         if( ! dup && op == 2 ){ dup = ref.count( b ); if( ! dup ) ref[ b ] = { ti, nullptr }; }
         REQ( "C13", e == ( dup ? 3 : 0 ), "declaring threw %s, %s expected", excname( e ), excname( dup ? 3 : 0 ) );
         added++;
         if( ! dup )
         {
            same( p.getPortInfoFor( a ), a, "declared port" );
            if( rnd( 200 ) == 0 )
            {
               PortInfo &i = p.getPortInfoFor( a );
               H( "check the factories of \"" + a + "\"" );
               if( t == 0 ) chk_factories< int >( i ); else if( t == 1 ) chk_factories< double >( i ); else chk_factories< std::string >( i );
            }
         }
      }
      else if( op == 3 )
      {
         H( "setFIFO(\"" + a + "\")" );
         int e = thrown( [ & ](){ auto &i = p.getPortInfoFor( a ); fifos.emplace_back(); fifos.back().nm = "s" + S( fifos.size() ); if( rnd( 2 ) ) fifos.back().q.push_back( { 1, 0 } ); fifos.back().open = rnd( 4 ); i.setFIFO( &fifos.back() ); ref[ a ].f = &fifos.back(); } );
         REQ( "C13", e == ( ref.count( a ) ? 0 : 1 ), "getPortInfoFor(\"%s\") threw %s", a.c_str(), excname( e ) );
      }
      else if( op == 4 )
      {
         H( "operator[](\"" + a + "\")" );
         auto it( ref.find( a ) );
         if( it == ref.end() || it->second.f )
         {
            FIFO *r1 = nullptr, *r2 = nullptr, *r3 = nullptr;
            std::string c( a );
            int e1 = thrown( [ & ](){ r1 = &p[ a ]; } ), e2 = thrown( [ & ](){ r2 = &p[ std::move( c ) ]; } ), e3 = thrown( [ & ](){ Port &pp = p; r3 = &pp[ a.c_str() ]; } );
            REQ( "C13", e1 == e2 && e1 == e3 && e1 == ( it == ref.end() ), "operator[] threw %s, %s, %s", excname( e1 ), excname( e2 ), excname( e3 ) );
            REQ( "C13", e1 || ( r1 == it->second.f && r2 == it->second.f && r3 == it->second.f ), "operator[] returned another stream" );
         }
      }
      else if( op == 5 )
      {
         H( "getPortType(\"" + a + "\")" );
         const std::type_index *t = nullptr;
         int e = thrown( [ & ](){ std::string c( a ); t = &p.getPortType( std::move( c ) ); } );
         REQ( "C13", e == ( ref.count( a ) ? 0 : 1 ), "getPortType(\"%s\") threw %s", a.c_str(), excname( e ) );
         REQ( "C13", e || *t == *ref[ a ].ti, "getPortType(\"%s\") is another type", a.c_str() );
      }
      else if( op == 6 )
      {
         H( "getPortInfo()" );
         PortInfo *i = nullptr;
         int e = thrown( [ & ](){ i = &p.getPortInfo(); } );
         REQ( "C13", e == ( ref.size() == 1 ? 0 : ref.empty() ? 1 : 2 ), "getPortInfo() with %zu ports threw %s", ref.size(), excname( e ) );
         if( ! e ) same( *i, ref.begin()->first, "the only port" );
      }
      else if( op == 7 )
      {
         H( "iterate" );
         std::map< std::string, int > seen;
         std::size_t n = 0;
         for( auto it( p.begin() ); it != p.end(); ++it )
         {
            REQ( "C13", ! ( it == p.end() ), "iterator equal and unequal to end" );
            REQ( "C13", ++seen[ it.name() ] == 1, "iteration visits \"%s\" twice", it.name().c_str() );
            REQ( "C13", ref.count( it.name() ), "iteration visits the unknown port \"%s\"", it.name().c_str() );
            if( ref[ it.name() ].f ) REQ( "C13", &*it == ref[ it.name() ].f, "iteration gives another stream for \"%s\"", it.name().c_str() );
            PortIterator at( &p.portmap, n );
            REQ( "C13", at == it && ! ( at != it ), "the iterator at index %zu differs from begin advanced %zu times", n, n );
            REQ( "C13", ++n <= ref.size(), "iteration does not stop" );
         }
         REQ( "C13", n == ref.size(), "iteration visits %zu of %zu ports", n, ref.size() );
      }
      else if( added && st + 1 == steps )
      {
         // getPortInfoFor leaves unknown names unknown
         H( "lookup of an unknown name" );
         int e = thrown( [ & ](){ p.getPortInfoFor( "no such port" ); } );
         REQ( "C13", e == 1, "unknown name: threw %s", excname( e ) );
      }
      REQ( "C13", p.count() == ref.size() && p.hasPorts() == ! ref.empty(), "count %zu, hasPorts %d with %zu ports", p.count(), (int) p.hasPorts(), ref.size() );
      REQ( "C13", q.count() == 0 && ! q.hasPorts(), "the other side of the kernel has ports" );
   }
   for( auto &r : ref )
   {
      H( "lookup of \"" + r.first + "\"" );
      same( p.getPortInfoFor( r.first ), r.first, "lookup" );
   }
   // the same declarations on the other side, and copies of a description
   for( auto &r : ref ) if( *r.second.ti == typeid( int ) )
   {
      H( "declare \"" + r.first + "\" on the other side" );
      REQ( "C13", thrown( [ & ](){ q.addPort< int >( r.first ); } ) == 0, "the same name on the other side is refused" );
      PortInfo c( p.getPortInfoFor( r.first ) );
      same( c, r.first, "copy" );
      break;
   }
}
static void c13_inplace()
{
   NK k;
   unsigned len = rnd( 40 ), n = 1 + rnd( 6 );
   static std::uint32_t buf[ 64 ];
   Port p( &k, buf, len * sizeof( buf[ 0 ] ) );
   H( "addInPlacePorts( " + S( n ) + " ) over " + S( len ) + " elements" );
   p.addInPlacePorts< std::uint32_t >( n );
   REQ( "C13", p.count() == n, "%zu ports instead of %u", p.count(), n );
   std::size_t at = 0;
   for( unsigned i = 0; i < n; i++ )
   {
      PortInfo &pi = p.getPortInfoFor( S( i ) );
      REQ( "C13", pi.my_name == S( i ) && pi.my_kernel == &k && pi.type == typeid( std::uint32_t ), "port %u is described wrongly", i );
      REQ( "C13", pi.existing_buffer == buf + at && pi.start_index == at, "port %u covers the buffer from %zu, %zu expected", i, pi.start_index, at );
      at += pi.nitems;
   }
   REQ( "C13", at == len, "the ports cover %zu of %u elements", at, len );
}

using clk = std::chrono::steady_clock;

// ---------------------------------------------------------------- C14: linking and start-up
static int lk_ids, lk_live;
struct LK : public raft::kernel
{
   char label; int id; bool cl = false;
   std::vector< std::pair< std::string, int > > pi, po;      // name, type
   template < class P > static void add( P &p, const std::string &n, int t )
   {
      if( t == 0 ) p.template addPort< int >( n ); else if( t == 1 ) p.template addPort< float >( n ); else p.template addPort< std::array< long, 3 > >( n );
   }
   LK( char l, std::vector< std::pair< std::string, int > > i, std::vector< std::pair< std::string, int > > o ) : raft::kernel(), label( l ), id( lk_ids++ ), pi( i ), po( o )
   {
      for( auto &x : i ) add( input, x.first, x.second );
      for( auto &x : o ) add( output, x.first, x.second );
      lk_live++;
   }
   LK( const LK &o ) : LK( o.label, o.pi, o.po ){ cl = true; }
   ~LK(){ lk_live--; }
   CLONE()
   raft::kstatus run() override { return raft::stop; }
   std::string desc()
   {
      std::string s; s += label; s += "(in";
      for( auto &x : pi ) s += " " + x.first + ":" + S( x.second );
      s += ", out";
      for( auto &x : po ) s += " " + x.first + ":" + S( x.second );
      return s + ")";
   }
};
static std::string lname( raft::kernel *k )
{
   if( !k ) return "nothing";
   auto *l = static_cast< LK* >( k );
   return std::string( 1, l->label ) + S( l->id );
}
static std::vector< std::pair< std::string, int > > mkports( int n, int types )
{
   static const char *names[] = { "0", "1", "a", "b", "2" };
   std::vector< std::pair< std::string, int > > v;
   for( int i = 0; i < n; i++ )
   {
      std::string nm = names[ rnd( 5 ) ];
      bool dup = false; for( auto &x : v ) dup |= x.first == nm;
      if( !dup ) v.push_back( { nm, (int) rnd( types ) } );
   }
   return v;
}
struct LP { raft::kernel *other = nullptr; std::string oname; std::size_t buf = 0; bool ooo = false; };
static void same_port( PortInfo &pi, const LP &x, const std::string &what )
{
   REQ( "C14", pi.other_kernel == x.other, "%s is linked to %s, expected %s", what.c_str(), lname( pi.other_kernel ).c_str(), lname( x.other ).c_str() );
   if( x.other ) REQ( "C14", pi.other_name == x.oname, "%s is linked to port \"%s\", expected \"%s\"", what.c_str(), pi.other_name.c_str(), x.oname.c_str() );
   REQ( "C14", pi.fixed_buffer_size == x.buf, "%s has requested buffer size %zu, expected %zu", what.c_str(), (std::size_t) pi.fixed_buffer_size, x.buf );
   REQ( "C14", pi.out_of_order == x.ooo, "%s has out_of_order %d, expected %d", what.c_str(), (int) pi.out_of_order, (int) x.ooo );
   REQ( "C14", pi.getFIFO() == nullptr, "%s has a stream before the start", what.c_str() );
}
struct FixAlloc : public Allocate
{
   FixAlloc( raft::map &m, volatile bool &e ) : Allocate( m, e ){}
   void run() override
   {
      GraphTools::BFS( source_kernels.acquire(), [&]( PortInfo &a, PortInfo &b, void *d ){ allocate( a, b, d ); } );
      source_kernels.release();
   }
};
template < class F > static int c14_exc( F f )
{
   try { f(); return 0; }
   catch( PortNotFoundException & ){ return 1; }
   catch( AmbiguousPortAssignmentException & ){ return 2; }
   catch( PortTypeMismatchException & ){ return 3; }
   catch( PortDoubleInitializeException & ){ return 4; }
   catch( PortUnconnectedException & ){ return 5; }
   catch( InvalidTopologyOperationException & ){ return 6; }
   catch( const Stop & ){ throw; }
   catch( const std::exception & ){ return 7; }
}
static const char *c14_en( int e ){ const char *n[] = { "nothing", "PortNotFoundException", "AmbiguousPortAssignmentException", "PortTypeMismatchException", "PortDoubleInitializeException", "PortUnconnectedException", "InvalidTopologyOperationException", "another exception" }; return n[ e ]; }
// every link of the map has one stream of its type and size, shared by exactly its two ports
static void c14_streams( raft::map &m, std::vector< raft::kernel* > ks )
{
   H( "allocate" );
   volatile bool ex = false;
   stdalloc *sa = rnd( 2 ) ? new stdalloc( m, ex ) : nullptr;
   FixAlloc *fa = sa ? nullptr : new FixAlloc( m, ex );
   int e = c14_exc( [&]{ if( sa ) sa->run(); else fa->run(); } );
   REQ( "C14", e == 0, "allocating the streams throws %s", c14_en( e ) );
   std::set< FIFO* > seen;
   std::size_t links = 0;
   for( auto *k : ks ) for( auto &x : k->output.portmap.map )
   {
      PortInfo &a = x.second;
      if( !a.other_kernel ) continue;
      links++;
      PortInfo &b = a.other_kernel->input.getPortInfoFor( a.other_name );
      FIFO *f = a.getFIFO();
      REQ( "C14", f != nullptr, "%s[%s] has no stream after the start", lname( k ).c_str(), x.first.c_str() );
      REQ( "C14", b.getFIFO() == f, "the ends of the link %s[%s] have different streams", lname( k ).c_str(), x.first.c_str() );
      REQ( "C14", seen.insert( f ).second, "%s[%s] shares its stream with another link", lname( k ).c_str(), x.first.c_str() );
      std::size_t want = a.existing_buffer ? 0 : a.fixed_buffer_size ? a.fixed_buffer_size : INITIAL_ALLOC_SIZE;
      if( want ) REQ( "C14", f->capacity() == want, "the stream of %s[%s] holds %zu elements, %zu were asked for", lname( k ).c_str(), x.first.c_str(), f->capacity(), want );
      int t = -1; for( auto &y : static_cast< LK* >( k )->po ) if( y.first == x.first ) t = y.second;
      auto is = [&]( const std::type_info &u, const std::type_info &v ){ return typeid( *f ) == u || typeid( *f ) == v; };
      using A3 = std::array< long, 3 >;
      bool ok = t == 0 ? is( typeid( RingBuffer< int, Type::Heap, false > ), typeid( RingBuffer< int, Type::Heap, true > ) )
              : t == 1 ? is( typeid( RingBuffer< float, Type::Heap, false > ), typeid( RingBuffer< float, Type::Heap, true > ) )
                       : is( typeid( RingBuffer< A3, Type::Heap, false > ), typeid( RingBuffer< A3, Type::Heap, true > ) );
      REQ( "C14", ok, "the stream of %s[%s] (type %d) is a %s", lname( k ).c_str(), x.first.c_str(), t, typeid( *f ).name() );
   }
   Allocate *al = sa ? (Allocate*) sa : (Allocate*) fa;
   REQ( "C14", al->allocated_fifo.size() == links, "%zu streams are kept for %zu links", al->allocated_fifo.size(), links );
   // a second allocation is refused
   if( links && rnd( 3 ) == 0 )
   {
      H( "allocate again" );
      FixAlloc f2( m, ex );
      e = c14_exc( [&]{ f2.run(); } );
      m.source_kernels.release();
      REQ( "C14", e == 4, "ports that have a stream are given another one (%s thrown)", c14_en( e ) );
   }
   delete sa; delete fa;
   for( auto *k : ks )
   {
      for( auto &x : k->output.portmap.map ) x.second.fifo_a = x.second.fifo_b = nullptr;
      for( auto &x : k->input.portmap.map ) x.second.fifo_a = x.second.fifo_b = nullptr;
   }
}
static void c14_link()
{
   raft::map m;
   int n = 2 + rnd( 4 ), types = 1 + rnd( 3 );
   std::vector< LK* > ks;
   std::map< std::pair< int, std::string >, LP > st[ 2 ];     // [output?][kernel, port]
   for( int i = 0; i < n; i++ )
   {
      ks.push_back( new LK( 'A' + i, mkports( rnd( 4 ), types ), mkports( rnd( 4 ), types ) ) );
      H( ks.back()->desc() );
      for( auto &x : ks[ i ]->pi ) st[ 0 ][ { i, x.first } ];
      for( auto &x : ks[ i ]->po ) st[ 1 ][ { i, x.first } ];
   }
   auto pick = [&]( std::vector< std::pair< std::string, int > > &v ) -> std::string
   {
      unsigned r = rnd( 10 );
      if( r < 4 ) return "";
      if( r == 4 || v.empty() ) return "nope";
      return v[ rnd( v.size() ) ].first;
   };
   auto want = [&]( std::vector< std::pair< std::string, int > > &v, std::string &nm, int &t ) -> int
   {
      if( nm.empty() )
      {
         if( v.size() == 1 ){ nm = v[ 0 ].first; t = v[ 0 ].second; return 0; }
         return v.empty() ? 1 : 2;
      }
      for( auto &x : v ) if( x.first == nm ){ t = x.second; return 0; }
      return 1;
   };
   int steps = 1 + rnd( 12 );
   for( int s = 0; s < steps; s++ )
   {
      int ia = rnd( n ), ib = rnd( n );
      std::string pa = pick( ks[ ia ]->po ), pb = pick( ks[ ib ]->pi );
      std::size_t buf = rnd( 3 ) ? 0 : 1 + rnd( 1000 );
      bool ooo = rnd( 3 ) == 0;
      H( "link " + lname( ks[ ia ] ) + "[" + pa + "] -> " + lname( ks[ ib ] ) + "[" + pb + "] buffer " + S( buf ) + ( ooo ? " out" : " in" ) );
      int ta = 0, tb = 0;
      std::string na = pa, nb = pb;
      int e = want( ks[ ia ]->po, na, ta );
      if( !e ) e = want( ks[ ib ]->pi, nb, tb );
      if( !e && ta != tb ) e = 3;
      if( !e && ( st[ 1 ][ { ia, na } ].other || st[ 0 ][ { ib, nb } ].other ) ) e = 4;
      int how = rnd( 3 );
      int g = c14_exc( [&]{
         raft::kernel *s_ = nullptr, *d_ = nullptr;
         if( how == 0 && !pa.empty() && !pb.empty() ){ /* through an expression */
            LK &a = *ks[ ia ], &b = *ks[ ib ];
            if( ooo || buf ){ kernel_pair_t r = ooo ? m.link< raft::order::out >( &a, pa, &b, pb, buf ) : m.link( &a, pa, &b, pb, buf ); }
            else m += a[ pa ] >> b[ pb ];
         }
         else { kernel_pair_t r = ooo ? m.link< raft::order::out >( ks[ ia ], pa, ks[ ib ], pb, buf ) : m.link( ks[ ia ], pa, ks[ ib ], pb, buf ); 
                if( r.getSrc().first == r.getSrc().second || &(*r.getSrc().first).get() != ks[ ia ] || &(*r.getDst().first).get() != ks[ ib ] ) FAIL( "C14", "link returns other kernels than the ones linked" ); }
      } );
      REQ( "C14", g == e, "link throws %s, expected %s", c14_en( g ), c14_en( e ) );
      if( !e )
      {
         st[ 1 ][ { ia, na } ] = LP{ ks[ ib ], nb, buf, ooo };
         st[ 0 ][ { ib, nb } ] = LP{ ks[ ia ], na, buf, ooo };
      }
      for( int o = 0; o < 2; o++ ) for( auto &x : st[ o ] )
      {
         Port &p = o ? ks[ x.first.first ]->output : ks[ x.first.first ]->input;
         same_port( p.getPortInfoFor( x.first.second ), x.second, lname( ks[ x.first.first ] ) + "[" + x.first.second + ( o ? "] (output)" : "] (input)" ) );
      }
      if( g && ( how == 0 ) ) return;      // an expression half taken apart: nothing more is said
   }
   // ready to start?
   bool open = false;
   std::set< raft::kernel* > in;
   for( auto *k : m.all_kernels.acquire() ) in.insert( k );
   m.all_kernels.release();
   for( int o = 0; o < 2; o++ ) for( auto &x : st[ o ] ) if( in.count( ks[ x.first.first ] ) ) open |= !x.second.other;
   H( "checkEdges" );
   int e = c14_exc( [&]{ m.checkEdges(); } );
   REQ( "C14", e == ( open ? 5 : 0 ), "the start-up check throws %s on an application with %s", c14_en( e ), open ? "an unconnected port" : "every port connected" );
   if( rnd( 2 ) )
   {
      e = open ? c14_exc( [&]{ m.exe< partition_dummy, simple_schedule, stdalloc, no_parallel >(); } ) : 0;
      REQ( "C14", e == ( open ? 5 : 0 ), "exe throws %s on an application with an unconnected port", c14_en( e ) );
   }
   std::vector< raft::kernel* > all;
   // the streams of kernels reachable from a source
   std::set< raft::kernel* > reach( in.size() ? std::set< raft::kernel* >() : std::set< raft::kernel* >() );
   if( !open )
   {
      std::vector< raft::kernel* > w;
      for( auto *k : in ) if( !k->input.hasPorts() ){ reach.insert( k ); w.push_back( k ); }
      while( !w.empty() ){ auto *k = w.back(); w.pop_back(); for( auto &x : k->output.portmap.map ) if( x.second.other_kernel && reach.insert( x.second.other_kernel ).second ) w.push_back( x.second.other_kernel ); }
      for( auto *k : reach ) all.push_back( k );
      if( !all.empty() ) c14_streams( m, all );
   }
   // kernels are deliberately leaked: their ports hold no stream
}
// the links a topology expression denotes, worked out independently
struct EX { std::vector< std::pair< char, int > > ops; };     // operator ('>', '<' split, 'j' join, 'd' join with duplication), kernel number
static std::string canon( raft::kernel *k, std::map< raft::kernel*, int > &num, const char *in_port )
{
   auto *l = static_cast< LK* >( k );
   std::string s = std::string( in_port ? std::string( in_port ) + ":" : "" ) + l->label;
   auto it = num.find( k );
   if( it != num.end() ) return s + "#" + S( it->second );
   int i = num.size(); num[ k ] = i;
   s += "#" + S( i );
   if( !l->po.empty() )
   {
      s += "(";
      for( auto &x : k->output.portmap.map )
      {
         s += x.first + ">";
         s += x.second.other_kernel ? canon( x.second.other_kernel, num, x.second.other_name.c_str() ) : std::string( "nothing" );
         s += " ";
      }
      s += ")";
   }
   return s;
}
struct XN { int op; std::vector< std::pair< XN*, int > > to; XN( int o, int n ) : op( o ), to( n, { nullptr, 0 } ){} };
static std::string xcanon( XN *x, const std::vector< LK* > &ks, std::map< XN*, int > &num, const char *in_port )
{
   std::string s = std::string( in_port ? std::string( in_port ) + ":" : "" ) + ks[ x->op ]->label;
   auto it = num.find( x );
   if( it != num.end() ) return s + "#" + S( it->second );
   int i = num.size(); num[ x ] = i;
   s += "#" + S( i );
   if( !x->to.empty() )
   {
      s += "(";
      std::size_t j = 0;
      for( auto &p : ks[ x->op ]->output.portmap.map )
      {
         auto &t = x->to[ j++ ];
         s += p.first + ">";
         if( t.first )
         {
            auto pit = ks[ t.first->op ]->input.portmap.map.begin(); std::advance( pit, t.second );
            s += xcanon( t.first, ks, num, pit->first.c_str() );
         }
         else s += "nothing";
         s += " ";
      }
      s += ")";
   }
   return s;
}
static void c14_expr()
{
   static const char *digits[] = { "0", "1", "2", "3" };
   auto ports = [&]( int n ){ std::vector< std::pair< std::string, int > > v; for( int i = 0; i < n; i++ ) v.push_back( { digits[ i ], 0 } ); return v; };
   std::vector< LK* > ks;
   std::vector< char > op;           // operator in front of kernel i (i > 0)
   std::vector< int > depth;         // open splits (their widths)
   // a random well-formed expression
   bool dup = rnd( 4 ) == 0;
   int len = 2 + rnd( 5 );
   auto mk = [&]( int ni, int no ){ ks.push_back( new LK( 'a' + ks.size(), ports( ni ), ports( no ) ) ); };
   std::vector< int > kinds;
   mk( 0, 1 );
   int lastdup = -1;
   if( dup )
   {
      int chain = rnd( 4 );
      for( int i = 0; i < chain; i++ ){ mk( 1, 1 ); op.push_back( '>' ); }
      mk( 1 + rnd( 4 ), 1 ); op.push_back( 'd' ); lastdup = ks.size() - 1;
      int after = rnd( 3 );
      for( int i = 0; i < after; i++ ){ mk( 1, i + 1 == after && rnd( 2 ) ? 0 : 1 ); op.push_back( '>' ); if( ks.back()->po.empty() ) break; }
   }
   else for( int i = 0; i < len; i++ )
   {
      unsigned r = rnd( 6 );
      LK *&prev = ks.back();
      if( r < 3 && depth.size() < 3 && ( op.empty() || op.back() != '>' ) )
      {
         // the kernel in front gets several outputs
         int w = 1 + rnd( 3 );
         LK *p = new LK( prev->label, prev->pi, ports( w ) ); p->id = prev->id; ks.back() = p;
         depth.push_back( w );
         mk( 1, 1 ); op.push_back( '<' );
      }
      else if( r < 5 && !depth.empty() ){ mk( depth.back(), 1 ); op.push_back( 'j' ); depth.pop_back(); }
      else { mk( 1, 1 ); op.push_back( '>' ); }
   }
   if( !dup && rnd( 2 ) ){ LK *p = ks.back(); ks.back() = new LK( p->label, p->pi, {} ); }
   std::string txt = std::string( 1, ks[ 0 ]->label );
   for( std::size_t i = 1; i < ks.size(); i++ ) txt += std::string( op[ i - 1 ] == '>' ? " >> " : op[ i - 1 ] == '<' ? " <= " : " >= " ) + ks[ i ]->label;
   H( "m += " + txt + " with inputs/outputs" );
   for( auto *k : ks ) H( S( k->pi.size() ) + "/" + S( k->po.size() ) );
   // expected graph
   auto node = [&]( int i ){ return new XN( i, ks[ i ]->po.size() ); };
   std::vector< XN* > sources;
   if( dup )
   {
      XN *j = node( lastdup );
      for( std::size_t b = 0; b < ks[ lastdup ]->pi.size(); b++ )
      {
         XN *p = nullptr;
         for( int i = 0; i < lastdup; i++ ){ XN *x = node( i ); if( p ) p->to[ 0 ] = { x, 0 }; else sources.push_back( x ); p = x; }
         p->to[ 0 ] = { j, (int) b };
      }
      XN *p = j;
      for( std::size_t i = lastdup + 1; i < ks.size(); i++ ){ XN *x = node( i ); p->to[ 0 ] = { x, 0 }; p = x; }
   }
   else
   {
      // frontier as nested groups: level d holds the kernels that come from one open split
      std::vector< XN* > fr( 1, node( 0 ) );
      sources.push_back( fr[ 0 ] );
      std::vector< int > open;
      for( std::size_t i = 1; i < ks.size(); i++ )
      {
         std::vector< XN* > nf;
         if( op[ i - 1 ] == '>' ) for( auto *f : fr ){ nf.push_back( node( i ) ); f->to[ 0 ] = { nf.back(), 0 }; }
         else if( op[ i - 1 ] == '<' )
         {
            open.push_back( ks[ i - 1 ]->po.size() );
            for( auto *f : fr ) for( std::size_t p = 0; p < f->to.size(); p++ ){ nf.push_back( node( i ) ); f->to[ p ] = { nf.back(), 0 }; }
         }
         else
         {
            int w = open.back(); open.pop_back();
            for( std::size_t a = 0; a < fr.size(); a += w )
            {
               nf.push_back( node( i ) );
               for( int p = 0; p < w; p++ ) fr[ a + p ]->to[ 0 ] = { nf.back(), p };
            }
         }
         fr = nf;
      }
   }
   std::multiset< std::string > want, got;
   std::map< XN*, int > xn;
   if( dup ) for( auto *x : sources ){ xn.clear(); want.insert( xcanon( x, ks, xn, nullptr ) ); }
   else want.insert( xcanon( sources[ 0 ], ks, xn, nullptr ) );
   // the real thing, composed left to right or with the part after the first operator composed first
   raft::map m;
   std::size_t nsrc = 0, ndst = 0;
   bool joined = false;
   int e = c14_exc( [&]{
      auto &K = ks;
      // any way of putting the parentheses for which the operators exist
      std::function< bool( std::size_t, std::size_t ) > can;
      auto ok = [&]( std::size_t i, std::size_t j, std::size_t t ) -> bool
      {
         char o = op[ t - 1 ];
         if( o == '>' && t != j ) return false;
         if( o == '<' && t - 1 != i ) return false;
         return can( i, t - 1 ) && can( t, j );
      };
      can = [&]( std::size_t i, std::size_t j ) -> bool
      {
         if( i == j ) return true;
         for( std::size_t t = i + 1; t <= j; t++ ) if( ok( i, j, t ) ) return true;
         return false;
      };
      std::string shape;
      std::function< kpair*( std::size_t, std::size_t ) > build = [&]( std::size_t i, std::size_t j ) -> kpair*
      {
         std::vector< std::size_t > c;
         for( std::size_t t = i + 1; t <= j; t++ ) if( ok( i, j, t ) ) c.push_back( t );
         std::size_t t = c[ rnd( c.size() ) ];
         shape += "(";
         kpair *l = i == t - 1 ? nullptr : build( i, t - 1 );
         if( !l ) shape += K[ i ]->label;
         shape += op[ t - 1 ] == '>' ? " >> " : op[ t - 1 ] == '<' ? " <= " : " >= ";
         kpair *r = t == j ? nullptr : build( t, j );
         if( !r ) shape += K[ j ]->label;
         shape += ")";
         if( op[ t - 1 ] == '>' ) return l ? &( *l >> *K[ j ] ) : &( *K[ i ] >> *K[ j ] );
         if( op[ t - 1 ] == '<' ) return r ? &( *K[ i ] <= *r ) : &( *K[ i ] <= *K[ j ] );
         if( l && r ) return &( *l >= *r );
         if( l ) return &( *l >= *K[ j ] );
         if( r ) return &( *K[ i ] >= *r );
         return &( *K[ i ] >= *K[ j ] );
      };
      kpair *acc = build( 0, K.size() - 1 );
      H( "composed as " + shape );
      kernel_pair_t r = ( m += *acc );
      for( auto x = r.getSrc().first; x != r.getSrc().second; ++x ) nsrc++;
      for( auto x = r.getDst().first; x != r.getDst().second; ++x ) ndst++;
   } );
   REQ( "C14", e == 0, "a well formed expression throws %s", c14_en( e ) );
   // the real graph
   std::map< raft::kernel*, int > num;
   if( dup )
   {
      auto &src = m.source_kernels.acquire();
      REQ( "C14", src.size() == ks[ lastdup ]->pi.size(), "%zu source kernels, expected %zu", src.size(), ks[ lastdup ]->pi.size() );
      for( auto *k : src ){ num.clear(); got.insert( canon( k, num, nullptr ) ); }
      m.source_kernels.release();
   }
   else got.insert( canon( ks[ 0 ], num, nullptr ) );
   if( got != want )
   {
      std::string g, w; for( auto &x : got ) g += x + "; "; for( auto &x : want ) w += x + "; ";
      H( "denotes " + w ); H( "links " + g );
      FAIL( "C14", "the links made are not the ones the expression denotes" );
   }
   // both ends know each other; every kernel is in the map
   std::set< raft::kernel* > all; for( auto *k : m.all_kernels.acquire() ) all.insert( k ); m.all_kernels.release();
   for( auto *k : all ) for( auto &x : k->output.portmap.map ) if( x.second.other_kernel )
   {
      PortInfo &b = x.second.other_kernel->input.getPortInfoFor( x.second.other_name );
      REQ( "C14", b.other_kernel == k && b.other_name == x.first, "the far end of %s[%s] does not know it", lname( k ).c_str(), x.first.c_str() );
      REQ( "C14", all.count( x.second.other_kernel ), "a linked kernel is missing from the application" );
   }
   if( !dup ) REQ( "C14", all.size() == num.size(), "%zu kernels in the application, %zu are linked", all.size(), num.size() );
   bool sink = ks.back()->po.empty();
   e = c14_exc( [&]{ m.checkEdges(); } );
   REQ( "C14", e == ( sink ? 0 : 5 ), "the start-up check throws %s", c14_en( e ) );
   if( sink ) c14_streams( m, std::vector< raft::kernel* >( all.begin(), all.end() ) );
}

// ---------------------------------------------------------------- C15 split and join
namespace c15 {
using u64 = std::uint64_t;
struct It
{
   u64 v; u64 *chk;
   It() : v( 0 ), chk( new u64( 0 ) ) {}
   It( u64 x ) : v( x ), chk( new u64( x ) ) {}
   It( const It &o ) : v( o.v ), chk( new u64( *o.chk ) ) {}
   It& operator=( const It &o ){ v = o.v; *chk = *o.chk; return *this; }
   ~It(){ delete chk; chk = nullptr; }
};
static u64 val( const u64 &x ){ return x; }
static u64 val( const It &x ){ return x.v == *x.chk ? x.v : 0; }
// chooses any stream of the list at random, or none
static bool ready_only = true;
struct anyone : public splitmethod
{
   FIFO *select_fifo( Port &ports, const functype type ) override
   {
      std::vector< FIFO* > c;
      for( auto &f : ports ) if( !ready_only || ( type == sendtype ? f.space_avail() : f.size() ) > 0 ) c.push_back( &f );
      if( c.empty() || rnd( 6 ) == 0 ) return nullptr;
      return c[ rnd( c.size() ) ];
   }
};
struct Q                                       // a heap stream and what is in it
{
   FIFO *f; std::size_t cap; std::deque< std::pair< u64, int > > q; std::string nm; u64 last = 0; bool closed = false;
   template < class T > void put( u64 v, int s ){ T t( v ); f->push< T >( t, static_cast< raft::signal >( s ) ); q.push_back( { v, s } ); H( nm + " <- " + S( v ) + "/" + S( s ) ); }
};
template < class T > static Q mk( raft::kernel &k, bool out, const std::string &name )
{
   Q q;
   q.cap = 1 + rnd( 6 );
   q.f = RingBuffer< T, Type::Heap, false >::make_new_fifo( q.cap, 64, nullptr );
   q.nm = std::string( out ? "out " : "in " ) + name;
   ( out ? k.output : k.input ).getPortInfoFor( name ).setFIFO( q.f );
   // move the ring's positions to anywhere
   for( unsigned r = rnd( 2 * q.cap + 1 ); r; r-- ){ T t( 1 ); q.f->push< T >( t ); q.f->pop< T >( t ); }
   return q;
}
static u64 next_id = 10;
template < class T > static void take( Q &q, std::map< u64, int > &sent, std::set< u64 > &seen )
{
   T t( 5 ); raft::signal s = raft::none;
   q.f->pop< T >( t, &s );
   u64 v = val( t );
   H( q.nm + " -> " + S( v ) + "/" + S( s ) );
   REQ( "C15", sent.count( v ), "%s holds %llu, which was never given to the kernel", q.nm.c_str(), (unsigned long long) v );
   REQ( "C15", seen.insert( v ).second, "%s holds %llu, which was placed before", q.nm.c_str(), (unsigned long long) v );
   REQ( "C15", sent[ v ] == (int) s, "element %llu has signal %d, it was sent with %d", (unsigned long long) v, (int) s, sent[ v ] );
   REQ( "C15", v > q.last, "%s holds %llu after %llu: the order changed", q.nm.c_str(), (unsigned long long) v, (unsigned long long) q.last );
   q.last = v;
}
template < class T, class M > static void splitting()
{
   const unsigned n = 1 + rnd( 4 );
   raft::split< T, M > k( n );
   H( "split to " + S( n ) );
   REQ( "C15", k.input.count() == 1 && k.output.count() == n, "a split to %u has %zu inputs and %zu outputs", n, (std::size_t) k.input.count(), (std::size_t) k.output.count() );
   Q in = mk< T >( k, false, "0" );
   std::vector< Q > out;
   for( unsigned i = 0; i < n; i++ ) out.push_back( mk< T >( k, true, std::to_string( i ) ) );
   std::map< u64, int > sent; std::set< u64 > seen;
   const bool never_block = ready_only;
   unsigned steps = 4 + rnd( 30 );
   for( unsigned st = 0; st < steps; st++ )
   {
      while( in.f->space_avail() > 0 && rnd( 4 ) ){ u64 v = next_id++; int s = rnd( 3 ) ? 0 : 1 + rnd( 3 ); sent[ v ] = s; in.put< T >( v, s ); }
      for( auto &o : out ) while( o.f->size() > 0 && rnd( 3 ) == 0 ) { u64 b = o.q.empty() ? 0 : o.q.front().first; (void) b; std::size_t was = seen.size(); take< T >( o, sent, seen ); (void) was; }
      std::size_t space = 0, filled = 0;
      for( auto &o : out ){ space += o.f->space_avail(); filled += o.f->size(); }
      if( space == 0 ) continue;
      const std::size_t waiting = in.f->size();
      alarm( 5 ); H( "run" );
      auto r = k.run();
      alarm( 0 );
      REQ( "C15", r == raft::proceed, "split::run does not ask to be run again" );
      std::size_t after = 0;
      for( auto &o : out ) after += o.f->size();
      const std::size_t left = in.f->size();
      REQ( "C15", left <= waiting && waiting - left == after - filled, "%zu elements left the input, %zu arrived at outputs", waiting - left, after - filled );
      if( std::is_same< M, roundrobin >::value ) REQ( "C15", waiting == 0 || left < waiting, "%zu elements wait, %zu can be placed, none is moved", waiting, space );
   }
   // the rest of the input, then the outputs, in order
   while( in.f->size() > 0 )
   {
      T t( 5 ); raft::signal s; in.f->pop< T >( t, &s ); u64 v = val( t );
      REQ( "C15", sent.count( v ) && sent[ v ] == (int) s, "the input holds %llu, which was never given to it, or with another signal", (unsigned long long) v );
      for( auto &x : sent ) if( x.first > v ) REQ( "C15", !seen.count( x.first ), "%llu was placed before %llu was", (unsigned long long) x.first, (unsigned long long) v );
      REQ( "C15", seen.insert( v ).second, "%llu is still on the input and on an output as well", (unsigned long long) v );
   }
   for( auto &o : out ) while( o.f->size() > 0 )
   {
      T t( 5 ); raft::signal s;
      take< T >( o, sent, seen );
   }
   REQ( "C15", seen.size() == sent.size(), "%zu elements were given to the split, %zu are found", sent.size(), seen.size() );
   delete in.f; for( auto &o : out ) delete o.f;
}
template < class T, class M > static void joining()
{
   const unsigned n = 1 + rnd( 4 );
   raft::join< T, M > k( n );
   H( "join of " + S( n ) );
   REQ( "C15", k.output.count() == 1 && k.input.count() == n, "a join of %u has %zu inputs and %zu outputs", n, (std::size_t) k.input.count(), (std::size_t) k.output.count() );
   Q out = mk< T >( k, true, "0" );
   std::vector< Q > in;
   for( unsigned i = 0; i < n; i++ ) in.push_back( mk< T >( k, false, std::to_string( i ) ) );
   std::map< u64, int > sent; std::set< u64 > seen; std::map< u64, unsigned > from; std::vector< u64 > last( n, 0 );
   auto get = [&]
   {
      T t( 5 ); raft::signal s = raft::none; out.f->pop< T >( t, &s );
      u64 v = val( t );
      H( out.nm + " -> " + S( v ) + "/" + S( s ) );
      REQ( "C15", sent.count( v ), "the output holds %llu, which was never given to the kernel", (unsigned long long) v );
      REQ( "C15", seen.insert( v ).second, "%llu was placed twice", (unsigned long long) v );
      REQ( "C15", sent[ v ] == (int) s, "element %llu has signal %d, it was sent with %d", (unsigned long long) v, (int) s, sent[ v ] );
      REQ( "C15", last[ from[ v ] ] < v, "elements of input %u change their order", from[ v ] );
      last[ from[ v ] ] = v;
   };
   unsigned steps = 4 + rnd( 30 );
   for( unsigned st = 0; st < steps; st++ )
   {
      for( unsigned i = 0; i < n; i++ ) while( ! in[ i ].closed && in[ i ].f->space_avail() > 0 && rnd( 3 ) == 0 ){ u64 v = next_id++; int s = rnd( 3 ) ? 0 : 1 + rnd( 3 ); sent[ v ] = s; from[ v ] = i; in[ i ].put< T >( v, s ); }
      if( rnd( 12 ) == 0 ){ unsigned c = rnd( n ); if( !in[ c ].f->is_invalid() ){ in[ c ].f->invalidate(); in[ c ].closed = true; H( in[ c ].nm + " is closed" ); } }
      while( out.f->size() > 0 && rnd( 3 ) ) get();
      std::size_t data = 0, filled = out.f->size();
      for( auto &i : in ) data += i.f->size();
      if( ( data == 0 && std::is_same< M, roundrobin >::value ) || out.f->space_avail() == 0 ) continue;
      alarm( 5 ); H( "run" );
      auto r = k.run();
      alarm( 0 );
      REQ( "C15", r == raft::proceed, "join::run does not ask to be run again" );
      std::size_t left = 0;
      for( auto &i : in ) left += i.f->size();
      REQ( "C15", left <= data && data - left == out.f->size() - filled, "%zu elements left the inputs, %zu arrived at the output", data - left, out.f->size() - filled );
      if( std::is_same< M, roundrobin >::value ) REQ( "C15", left < data, "%zu elements wait, none is moved", data );
   }
   while( out.f->size() > 0 ) get();
   for( unsigned i = 0; i < n; i++ ) while( in[ i ].f->size() > 0 )
   {
      T t( 5 ); raft::signal s; in[ i ].f->pop< T >( t, &s ); u64 v = val( t );
      REQ( "C15", sent.count( v ) && sent[ v ] == (int) s, "input %u holds %llu, which was never given to it, or with another signal", i, (unsigned long long) v );
      REQ( "C15", seen.insert( v ).second, "%llu is still on an input and on the output as well", (unsigned long long) v );
   }
   REQ( "C15", seen.size() == sent.size(), "%zu elements were given to the join, %zu are found", sent.size(), seen.size() );
   delete out.f; for( auto &i : in ) delete i.f;
}
// the single-element interface of the distribution methods
template < class M > static void single()
{
   raft::split< u64, M > k( 1 + rnd( 4 ) );
   raft::join< u64, M > j( k.output.count() );
   std::vector< Q > out;
   for( unsigned i = 0; i < k.output.count(); i++ ) { out.push_back( mk< u64 >( k, true, std::to_string( i ) ) ); j.input.getPortInfoFor( std::to_string( i ) ).setFIFO( out[ i ].f ); }
   M m;
   std::map< u64, int > sent; std::set< u64 > seen;
   for( unsigned st = 0; st < 20; st++ )
   {
      std::size_t space = 0, data = 0;
      for( auto &o : out ){ space += o.f->space_avail(); data += o.f->size(); }
      if( space && rnd( 2 ) )
      {
         u64 v = next_id++; int s = rnd( 4 );
         alarm( 5 ); H( "send " + S( v ) + "/" + S( s ) ); bool ok = m.send( v, static_cast< raft::signal >( s ), k.output ); alarm( 0 );
         std::size_t after = 0; for( auto &o : out ) after += o.f->size();
         REQ( "C15", after == data + ok, "send answers %d, %zu elements were placed", (int) ok, after - data );
         if( ok ) sent[ v ] = s;
      }
      else if( data )
      {
         u64 v = 0; raft::signal s = raft::none;
         alarm( 5 ); H( "get" ); bool ok = m.get( v, s, j.input ); alarm( 0 );
         std::size_t after = 0; for( auto &o : out ) after += o.f->size();
         REQ( "C15", after + ok == data, "get answers %d, %zu elements were taken", (int) ok, data - after );
         if( ok )
         {
            REQ( "C15", sent.count( v ) && seen.insert( v ).second, "get gives %llu, which is not there", (unsigned long long) v );
            REQ( "C15", sent[ v ] == (int) s, "element %llu has signal %d, it was sent with %d", (unsigned long long) v, (int) s, sent[ v ] );
         }
      }
   }
   for( auto &o : out ) while( o.f->size() ) take< u64 >( o, sent, seen );
   REQ( "C15", seen.size() == sent.size(), "%zu elements were sent, %zu are found", sent.size(), seen.size() );
   for( auto &o : out ) delete o.f;
}
}
static void c15_split(){ switch( rnd( 3 ) ){ case 0: c15::splitting< c15::u64, roundrobin >(); break; case 1: c15::splitting< c15::It, roundrobin >(); break; default: c15::splitting< c15::u64, c15::anyone >(); } }
static void c15_join(){ switch( rnd( 3 ) ){ case 0: c15::joining< c15::u64, roundrobin >(); break; case 1: c15::joining< c15::It, roundrobin >(); break; default: c15::joining< c15::u64, c15::anyone >(); } }
static void c15_single(){ rnd( 2 ) ? c15::single< roundrobin >() : c15::single< c15::anyone >(); }

#ifdef RT_FILE
// ---------------------------------------------------------------- C16 files in chunks, text search
#include "raftinc/fileio.tcc"
#include "raftinc/search.tcc"
template < std::size_t N > static void c16_file()
{
   using chunk = raft::filechunk< N >; using reader = raft::filereader< chunk, false >; using finder = raft::search< chunk, raft::stdlib >;
   const std::size_t C = N - 1;
   // a text that repeats a lot, so that matches fall everywhere, chunk boundaries included
   std::string text; const std::size_t len = rnd( 4 ) ? rnd( 6 * N ) : C * rnd( 5 ) + rnd( 3 );
   for( std::size_t i = 0; i < len; i++ ) text += rnd( 8 ) ? (char)( 'a' + i % 3 ) : (char)( 'a' + rnd( 3 ) );
   const std::size_t off = rnd( 3 ) ? 1 + rnd( std::min< std::size_t >( C, 9 ) ) : rnd( C + 1 );
   std::string term = len >= off && off ? text.substr( rnd( len - off + 1 ), off ) : std::string( std::max< std::size_t >( off, 1 ), 'a' );
   if( off && rnd( 3 ) == 0 && len >= off ) term = text.substr( len - off, off );
   const unsigned ports = 1 + rnd( 3 );
   char path[] = "c16_XXXXXX"; const int fd = mkstemp( path );
   if( fd < 0 || write( fd, text.data(), len ) != (ssize_t) len ){ perror( "scratch file" ); _exit( 2 ); }
   close( fd );
   H( "file of " + S( len ) + " bytes \"" + text.substr( 0, 300 ) + "\", chunks of " + S( N ) + ", chunk_offset " + S( off ) + ", " + S( ports ) + " ports, text \"" + term + "\"" );
   reader r( path, (long) off, ports );
   unlink( path );
   struct Close { FILE *&f; ~Close(){ if( f ) fclose( f ); f = nullptr; } } closing{ r.fp };
   finder f( term );
   using SRB = RingBuffer< chunk >; using MRB = RingBuffer< raft::match_t >;
   std::vector< std::unique_ptr< FIFO > > out; 
   REQ( "C16", r.output.count() == ports, "%zu output ports instead of %u", (std::size_t) r.output.count(), ports );
   for( unsigned i = 0; i < ports; i++ ){ out.emplace_back( new SRB( 1 + rnd( 3 ) ) ); r.output.getPortInfoFor( S( i ) ).setFIFO( out.back().get() ); }
   std::unique_ptr< FIFO > in( new SRB( 2 ) ), found( new MRB( 8 * N + 8 ) );
   f.input.getPortInfoFor( "0" ).setFIFO( in.get() ); f.output.getPortInfoFor( "0" ).setFIFO( found.get() );
   ptr_map_t pm; ptr_set_t ps, pin, pout;         // what the scheduler does for elements that are stored externally
   in->setPtrMap( &pm ); in->setInPeekSet( &pin ); for( auto &o : out ){ o->setPtrMap( &pm ); o->setInPeekSet( &pin ); }
   for( FIFO *o : { in.get(), found.get() } ){ o->setPtrSet( &ps ); o->setOutPeekSet( &pout ); } for( auto &o : out ){ o->setPtrSet( &ps ); o->setOutPeekSet( &pout ); }
   std::map< std::size_t, chunk* > got; std::vector< std::pair< std::size_t, std::size_t > > hits;
   std::vector< std::unique_ptr< chunk > > keep;
   bool stopped = false; std::size_t runs = 0;
   alarm( 8 );
   for( bool more = true; more; )
   {
      more = false;
      if( !stopped && rnd( 4 ) )
      {
         const auto k = r.run(); H( "run" );
         if( k == raft::stop ) stopped = true; else REQ( "C16", k == raft::proceed, "run answers %d", (int) k );
         REQ( "C16", ++runs < 40 * N + 400, "the reader does not come to an end" );
      }
      for( auto &o : out ) if( o->size() && ( stopped || rnd( 2 ) ) )
      {
         more = true;
         keep.emplace_back( new chunk() ); chunk &c = *keep.back();
         o->pop( c );
         REQ( "C16", c.length <= C, "a chunk of %zu bytes, it holds %zu", c.length, C );
         REQ( "C16", c.buffer[ c.length ] == 0, "the text of chunk %zu does not end after its length", (std::size_t) c.index );
         REQ( "C16", c.start_position <= len && c.start_position + c.length <= len && text.compare( c.start_position, c.length, c.buffer, c.length ) == 0,
              "chunk %zu says it is bytes %zu to %zu of the file, its text is something else", (std::size_t) c.index, c.start_position, c.start_position + c.length );
         REQ( "C16", got.emplace( c.index, &c ).second, "two chunks have number %zu", (std::size_t) c.index );
         // a copy says the same
         chunk d( c ); chunk e; e = c;
         for( chunk *x : { &d, &e } )
            REQ( "C16", x->index == c.index && x->length == c.length && x->start_position == c.start_position && memcmp( x->buffer, c.buffer, c.length + 1 ) == 0, "a copy of chunk %zu differs from it", (std::size_t) c.index );
         in->push( c );
         f.run();
         for( auto &x : pm ) x.second( (void*) x.first ); pm.clear(); pin.clear(); ps.clear();
         REQ( "C16", in->size() == 0, "search leaves its chunk on the stream" );
         while( found->size() ){ raft::match_t m; found->pop( m ); hits.push_back( m ); }
      }
      if( !stopped ) more = true;
   }
   alarm( 0 );
   std::size_t cov = 0, no = 0; const std::size_t ov = off ? off - 1 : 0;
   for( auto &g : got )
   {
      chunk &c = *g.second;
      REQ( "C16", g.first == no, "chunk %zu is missing", no );
      REQ( "C16", c.start_position == ( no ? cov - ov : 0 ), "chunk %zu starts at byte %zu, the one before it ends at byte %zu (they are to share %zu bytes)", no, c.start_position, cov, ov );
      REQ( "C16", no == 0 || cov < len, "chunk %zu was sent after the end of the file", no );
      cov = c.start_position + c.length; no++;
   }
   REQ( "C16", cov == len, "the chunks end at byte %zu of %zu", cov, len );
   if( off )
   {
      std::map< std::size_t, int > want; for( std::size_t p = text.find( term ); p != std::string::npos; p = text.find( term, p + 1 ) ) want[ p ] = 1;
      for( auto &h : hits )
      {
         REQ( "C16", h.second == h.first + term.size(), "a match from %zu to %zu, the text is %zu bytes long", h.first, h.second, term.size() );
         REQ( "C16", want.count( h.first ), "a match is reported at byte %zu, the text is not there", h.first );
         REQ( "C16", want[ h.first ]-- == 1, "the match at byte %zu is reported more than once", h.first );
      }
      for( auto &w : want ) REQ( "C16", w.second == 0, "the match at byte %zu is not reported", w.first );
   }
}
static void c16_small(){ c16_file< 8 >(); }
static void c16_large(){ c16_file< 80 >(); }
#endif


// ---------------------------------------------------------------- C19: who destroys what
struct OK_ : public raft::kernel
{
   static std::set< OK_* > &alive(){ static std::set< OK_* > a; return a; }
   int in, out;
   OK_( int i, int o ) : raft::kernel(), in( i ), out( o )
   {
      static const char *n[] = { "0", "1", "2" };
      for( int j = 0; j < i; j++ ) input.addPort< int >( n[ j ] );
      for( int j = 0; j < o; j++ ) output.addPort< int >( n[ j ] );
      alive().insert( this );
   }
   OK_( const OK_ &x ) : OK_( x.in, x.out ){}
   ~OK_(){ alive().erase( this ); }
   CLONE()
   raft::kstatus run() override { return raft::stop; }
};
struct MF19 : public MF { int *n; MF19( int *x ) : n( x ){} ~MF19(){ ( *n )--; } };
struct AL19 : public Allocate { AL19( raft::map &m, volatile bool &e ) : Allocate( m, e ){} void run() override {} };
static void c19_own()
{
   auto &A = OK_::alive();
   A.clear();
   std::vector< OK_* > user;                      // made by the user
   std::set< OK_* > mine;                         // expected to be alive
   auto check = [&]( const char *when )
   {
      for( auto *k : mine ) REQ( "C19", A.count( k ), "%s: a kernel was destroyed that is still in use", when );
      REQ( "C19", A.size() == mine.size(), "%s: %zu kernels exist, %zu should", when, A.size(), mine.size() );
   };
   auto *m = new raft::map;
   std::vector< raft::kernel* > in_map;
   {
      int chains = 1 + rnd( 3 );
      for( int c = 0; c < chains; c++ )
      {
         int shape = rnd( 6 );
         H( "expression of shape " + S( shape ) );
         auto U = [&]( int i, int o ) -> OK_& { auto *k = new OK_( i, o ); user.push_back( k ); mine.insert( k ); return *k; };
         auto before = A;
         if( shape == 0 ) *m += U( 0, 1 ) >> U( 1, 0 );
         else if( shape == 1 ) *m += U( 0, 1 ) >> raft::kernel::make< OK_ >( 1, 0 );
         else if( shape == 2 ) *m += raft::kernel::make< OK_ >( 0, 1 ) >> raft::kernel::make< OK_ >( 1, 0 );
         else if( shape == 3 ) *m += U( 0, 1 ) >> raft::kernel::make< OK_ >( 1, 1 ) >> raft::kernel::make< OK_ >( 1, 0 );
         else if( shape == 4 ) *m += U( 0, 2 ) <= U( 1, 1 ) >= raft::kernel::make< OK_ >( 2, 0 );
         else
         {
            auto w = raft::kernel::make< OK_ >( 0, 1 );
            raft::kernel_wrapper v( w );
            *m += std::move( v ) >> raft::kernel::make< OK_ >( 1, 0 );
         }
         mine = A;                                 // all of it belongs to the map (or the user) now
         std::size_t fresh = A.size() - before.size();
         std::size_t want[] = { 2, 2, 2, 3, 4, 2 };
         REQ( "C19", fresh == want[ shape ], "the expression leaves %zu kernels alive, it named or copied %zu", fresh, want[ shape ] );
         if( rnd( 2 ) )
         {
            H( "a kernel made and not used" );
            auto w = raft::kernel::make< OK_ >( 0, 1 );
            REQ( "C19", A.size() == mine.size() + 1, "a kernel just made does not exist" );
            if( rnd( 2 ) ){ raft::kernel_wrapper v( w ); { raft::kernel_wrapper u( v ); } REQ( "C19", A.size() == mine.size(), "a wrapper that owned a kernel left it alive" ); }
         }
         check( "after a wrapper ended" );
      }
   }
   std::set< std::size_t > ids;
   for( auto *k : A ) REQ( "C19", ids.insert( k->get_id() ).second, "two kernels have the id %zu", k->get_id() );
   struct PK : public raft::kernel { PK() : raft::kernel( nullptr, 0 ){} raft::kstatus run() override { return raft::stop; } };
   { PK a, b; NK c; for( raft::kernel *k : { (raft::kernel*) &a, (raft::kernel*) &b, (raft::kernel*) &c } ) REQ( "C19", ids.insert( k->get_id() ).second, "two kernels have the id %zu", k->get_id() ); }
   // streams belong to the allocator
   int live = 0;
   {
      volatile bool ex = false;
      OK_ a( 0, 3 ), b( 3, 0 );
      auto *al = new AL19( *m, ex );
      int n = rnd( 4 );
      for( int i = 0; i < n; i++ )
      {
         live++;
         std::string p = S( i );
         al->initialize( &a.output.getPortInfoFor( p ), &b.input.getPortInfoFor( p ), new MF19( &live ) );
      }
      REQ( "C19", live == n, "a stream was destroyed by the allocator that still runs" );
      H( "allocator with " + S( n ) + " streams ends" );
      delete al;
      REQ( "C19", live == 0, "%d of %d streams were not destroyed exactly once", live, n );
   }
   H( "the map ends" );
   delete m;
   mine.clear(); for( auto *k : user ) mine.insert( k );
   check( "after the map ended" );
   for( auto *k : user ) delete k;
}
// ---------------------------------------------------------------- C20: signal handlers
struct SigCall { int id; FIFO *f; raft::kernel *k; raft::signal s; void *d; };
static std::vector< SigCall > hcalls;
template < int N > static raft::kstatus hfun( FIFO &f, raft::kernel *k, const raft::signal s, void *d ){ hcalls.push_back( { N, &f, k, s, d } ); return N % 2 ? raft::stop : raft::proceed; }
static void c20_handlers()
{
   static const sighandler hs[] = { hfun< 0 >, hfun< 1 >, hfun< 2 >, hfun< 3 > };
   SystemSignalHandler h;
   std::map< unsigned, int > want;
   MF f, g; NK k; int data;
   for( int i = 0; i < 12; i++ )
   {
      unsigned sg = rnd( 5 ); if( sg == 4 ) sg = raft::MAX_SYSTEM_SIGNAL;
      hcalls.clear();
      if( rnd( 2 ) ){ int n = rnd( 4 ); H( "handler " + S( n ) + " for signal " + S( sg ) ); h.addHandler( (raft::signal) sg, hs[ n ] ); want[ sg ] = n; REQ( "C20", hcalls.empty(), "registering a handler calls one" ); }
      else
      {
         H( "signal " + S( sg ) );
         FIFO &s = rnd( 2 ) ? (FIFO&) f : (FIFO&) g;
         bool refused = false; raft::kstatus r = raft::proceed;
         try{ r = h.callHandler( (raft::signal) sg, s, &k, &data ); } catch( const NoSignalHandlerFoundException & ){ refused = true; }
         REQ( "C20", refused == !want.count( sg ), refused ? "a signal with a handler is reported as having none" : "a signal without a handler is not reported" );
         REQ( "C20", hcalls.size() == ( refused ? 0 : 1 ), "%zu handlers called", hcalls.size() );
         if( refused ) continue;
         auto &c = hcalls[ 0 ];
         REQ( "C20", c.id == want[ sg ], "handler %d called, %d is registered", c.id, want[ sg ] );
         REQ( "C20", c.f == &s && c.k == &k && c.s == sg && c.d == &data, "the handler gets something else than the signal's stream, kernel, number and data" );
         REQ( "C20", r == ( c.id % 2 ? raft::stop : raft::proceed ), "the handler's answer is not passed on" );
      }
   }
   // the default: quit closes its stream and stops the kernel
   raft::map m; simple_schedule s( m ); MF q; q.nm = "q"; MF z; z.nm = "z";
   raft::kstatus r = raft::proceed;
   try{ r = s.handlers.callHandler( raft::quit, q, &k, nullptr ); } catch( const NoSignalHandlerFoundException & ){ FAIL( "C20", "a scheduler has no handler for quit" ); }
   REQ( "C20", q.invalidated && r == raft::stop, "quit does not close the stream it came on and stop the kernel" );
}

// ---------------------------------------------------------------- C21: automatic enlarging
// ports at chosen addresses: what is made while `place` is set lies there, and stays when it is deleted
static char *arena, *place;
static const std::size_t arena_size = 72u << 16;
void *operator new( std::size_t n ){ if( place ){ char *p = place; place += ( n + 31 ) & ~(std::size_t) 31; return p; } void *p = malloc( n ? n : 1 ); if( !p ) throw std::bad_alloc(); return p; }
void operator delete( void *p ) noexcept { if( arena && (char*) p >= arena && (char*) p < arena + arena_size ) return; free( p ); }
void operator delete( void *p, std::size_t ) noexcept { operator delete( p ); }
struct MF21 : public MF
{
   int looks = 0, asked = 0, resized = 0, early = 0, wrong = 0, missed = 0; bool due = false; float last = 0; std::size_t cap, fixed = 0;
   unsigned style; volatile bool **flag; std::mutex *one; std::mt19937 r;
   MF21( std::size_t c, unsigned st, unsigned seed, volatile bool **f ) : cap( c ), style( st ), flag( f ), r( seed ){}
   std::size_t capacity() override { return cap; }
   float get_frac_write_blocked() override
   {
      asked++;
      if( due ) missed++;
      const float v[] = { 0.0f, 0.5f, 0.79f, 0.81f, 0.9f, 1.0f };
      last = style == 0 ? 0.0f : style == 1 ? 1.0f : v[ r() % 6 ];
      if( last >= 0.8 ){ due = looks >= 3; looks++; } else due = false;
      return last;
   }
   void resize( const std::size_t n, const std::size_t al, volatile bool &f ) override
   {
      resized++;
      if( !due ) early++;
      if( n != 2 * cap || al != ALLOC_ALIGN_WIDTH || &f != *flag ) wrong++;
      cap = n; due = false; looks = 0;
   }
};
static void c21_dynalloc()
{
   raft::map m;
   volatile bool ex = false, *fl = &ex;
   const bool far = rnd( 2 );            // the ports of every link 64 KiB from those of the one before
   int n = 1 + rnd( 6 );
   if( !arena ) arena = (char*) aligned_alloc( 65536, arena_size );
   std::vector< LK* > ks; std::vector< MF21* > fs( n, nullptr ); std::vector< int > fixed( n );
   H( "dynalloc over " + S( n ) + " links" );
   std::vector< int > calls( n, 0 );
   for( int i = 0; i < n; i++ )
   {
      const std::vector< std::pair< std::string, int > > none, p0 = { { "0", 0 } };
      char *at = arena + ( (std::size_t) i << 16 );
      place = far ? at : nullptr;
      auto *a = new LK( 's', none, p0 ), *b = new LK( 'd', p0, none );
      REQ( "C21", !far || place < at + 65536, "harness: the kernels of a link take %zu bytes", (std::size_t)( place - at ) );
      place = nullptr;
      ks.push_back( a ); ks.push_back( b );
      fixed[ i ] = rnd( 4 ) ? 0 : 4 + rnd( 8 );
      m.link( a, "0", b, "0", fixed[ i ] );
      auto &pi = a->output.getPortInfoFor( "0" );
      unsigned st = rnd( 3 ), seed = rnd( 1 << 30 );
      auto *fp = &fs[ i ]; auto *cp = &calls[ i ];
      ( *pi.const_map[ Type::Heap ] )[ false ] = [=, &fl]( std::size_t k, std::size_t, void * ) -> FIFO* { ( *cp )++; volatile bool **fq = const_cast< volatile bool** >( &fl ); return *fp = new MF21( k, st, seed, fq ); };
   }
   bool was_ready = false; std::size_t streams = 0;
   {
      dynalloc d( m, ex );
      alarm( 30 );
      std::thread th( [&]{ d.run(); } );
      d.waitTillReady();
      for( auto *f : fs ) if( f ) streams++;
      usleep( 3000 * ( 3 + rnd( 16 ) ) );
      ex = true; th.join();
      alarm( 0 );
      REQ( "C21", streams == (std::size_t) n, "ready with %zu of %d streams made", streams, n );
      for( int i = 0; i < n; i++ )
      {
         auto *f = fs[ i ];
         REQ( "C21", calls[ i ] == 1, "the stream of a link was made %d times", calls[ i ] );
         REQ( "C21", !fixed[ i ] || !f->resized, "a stream of fixed capacity was enlarged" );
         REQ( "C21", !f->early, "a stream was enlarged although it was not found blocked often enough" );
         REQ( "C21", !f->wrong, "a stream was not enlarged to twice its capacity (or with another alignment, exit flag)" );
         REQ( "C21", fixed[ i ] || ( !f->missed && !f->due ), "a stream found blocked again and again was not enlarged" );
      }
      REQ( "C21", m.source_kernels.mutex.try_lock(), "source kernels left locked" ); m.source_kernels.mutex.unlock();
   }
   for( auto *k : ks ) delete k;
}

// ---------------------------------------------------------------- C22: start-up and shut-down
static std::vector< std::string > xev; static std::mutex xm; static volatile bool *xexit, *xpara; static int xlive; static std::atomic< int > xready; static raft::map *xmap;
static void xe( const char *e ){ std::lock_guard< std::mutex > g( xm ); xev.push_back( e ); H( e ); }
static int xat( const char *e ){ int r = -1, n = 0; for( std::size_t i = 0; i < xev.size(); i++ ) if( xev[ i ] == e ){ r = (int) i; n++; } if( n != 1 ) FAIL( "C22", "%s happens %d times", e, n ); return r; }
struct YPart { void partition( kernelkeeper &k ){ REQ( "C22", &k == &xmap->all_kernels, "not every kernel is partitioned" ); xe( "partition" ); } };
struct YAlloc : public Allocate
{
   YAlloc( raft::map &m, volatile bool &e ) : Allocate( m, e ){ xexit = &e; xlive++; REQ( "C22", !e && &m == xmap, "allocator made for another map or told to stop at once" ); xe( "allocator made" ); }
   ~YAlloc(){ xlive--; }
   void run() override
   {
      xe( "allocator runs" );
      usleep( 200 + rnd( 3 ) * 700 );
      xe( "streams made" ); xready = 1; setReady();
      while( !exit_alloc ) usleep( 50 );
      xe( "allocator told to stop" );
      usleep( 500 );
      if( xlive != 3 ) dump( "allocator, scheduler or monitor destroyed while the allocator runs", "C22" ), _exit( wants( "C22" ) ? 1 : 3 );
      xe( "allocator ends" );
   }
};
struct YSched : public Schedule
{
   bool up = false;
   YSched( raft::map &m ) : Schedule( m ){ xlive++; REQ( "C22", xready == 1, "scheduler made before every stream is" ); REQ( "C22", &m == xmap, "scheduler made for another map" ); xe( "scheduler made" ); }
   ~YSched(){ xlive--; }
   void init() override { up = true; xe( "scheduler initialised" ); }
   void start() override
   {
      xe( "scheduler starts" );
      bool ok = up;
      usleep( 500 + rnd( 3 ) * 700 );
      if( !ok || *xexit || xlive < 2 ) dump( !ok ? "scheduler started before it is initialised" : "allocator told to stop (or destroyed) while kernels run", "C22" ), _exit( wants( "C22" ) ? 1 : 3 );
      xe( "scheduler ends" );
   }
   void handleSchedule( raft::kernel * const ) override {}
};
struct YPar
{
   volatile bool &ex;
   YPar( raft::map &m, Allocate &, Schedule &, volatile bool &e ) : ex( e ){ xpara = &e; xlive++; REQ( "C22", !e && &m == xmap, "monitor made for another map or told to stop at once" ); xe( "monitor made" ); }
   ~YPar(){ xlive--; }
   void start(){ xe( "monitor runs" ); while( !ex ) usleep( 50 ); xe( "monitor told to stop" ); usleep( 300 );
      if( xlive != 3 ) dump( "allocator, scheduler or monitor destroyed while the monitor runs", "C22" ), _exit( wants( "C22" ) ? 1 : 3 );
      xe( "monitor ends" ); }
};
static void c22_exe()
{
   raft::map m; xmap = &m; xev.clear(); xlive = 0; xready = 0;
   auto *a = new LK( 's', {}, { { "0", 0 } } ), *b = new LK( 'd', { { "0", 0 } }, {} );
   bool whole = rnd( 4 );
   if( whole ) m.link( a, "0", b, "0" ); else { m.all_kernels += a; m.source_kernels += a; }
   alarm( 20 );
   int e = c14_exc( [&]{ m.exe< YPart, YSched, YAlloc, YPar >(); } );
   alarm( 0 );
   if( !whole )
   {
      REQ( "C22", e == 5 && xev.empty(), "an application with an unconnected port is started" );
   }
   else
   {
      REQ( "C22", e == 0 && xlive == 0, "the application ends with %s (%d parts left)", c14_en( e ), xlive );
      REQ( "C22", xat( "partition" ) < xat( "allocator made" ) && xat( "allocator made" ) < xat( "allocator runs" ), "streams are made before kernels are partitioned" );
      REQ( "C22", xat( "streams made" ) < xat( "scheduler made" ) && xat( "scheduler initialised" ) < xat( "scheduler starts" ), "kernels run before every stream is made" );
      REQ( "C22", xat( "scheduler ends" ) < xat( "allocator told to stop" ), "the allocator is told to stop while kernels run" );
      xat( "monitor ends" ); xat( "allocator ends" ); xat( "monitor runs" );
      for( auto *k : { &m.all_kernels, &m.source_kernels, &m.dst_kernels } ){ REQ( "C22", k->mutex.try_lock(), "a kernel list is left locked" ); k->mutex.unlock(); }
   }
   delete a; delete b;
}

// ---------------------------------------------------------------- C23: the ready-made kernels
namespace c23
{
using c15::u64; typedef c15::Q Q15;
static u64 nid = 1;
struct Sink { std::vector< u64 > *v; std::size_t *pos; Sink& operator *(){ return *this; } Sink& operator =( const u64 &x ){ if( v->size() == *pos ) v->push_back( x ); else v->back() = 0; return *this; } Sink& operator ++(){ ++*pos; return *this; } };
static void types( raft::kernel &k, std::size_t in, std::size_t out, const std::string &what )
{
   REQ( "C23", k.input.count() == in && k.output.count() == out, "%s has %zu inputs and %zu outputs, %zu and %zu expected", what.c_str(), (std::size_t) k.input.count(), (std::size_t) k.output.count(), in, out );
   for( std::size_t i = 0; i < in; i++ ) REQ( "C23", k.input.getPortInfoFor( S( i ) ).type == typeid( u64 ), "%s: input %zu is of another type", what.c_str(), i );
   for( std::size_t i = 0; i < out; i++ ) REQ( "C23", k.output.getPortInfoFor( S( i ) ).type == typeid( u64 ), "%s: output %zu is of another type", what.c_str(), i );
}
// elements on its inputs, a run, what became of them (seen: handed over, in order)
static void feed( std::vector< Q15 > &in ){ for( auto &q : in ) while( q.f->space_avail() > 0 && rnd( 3 ) ) q.put< u64 >( nid++, rnd( 3 ) ? 0 : 1 ); }
template < char delim > static void printing()
{
   const unsigned n = rnd( 4 );
   std::ostringstream os;
   typedef raft::print< u64, delim > PR;
   PR a( os, n ), b( a );
   std::unique_ptr< raft::kernel > c( static_cast< raft::kernel& >( a ).clone() );
   types( a, n, 0, "print" ); types( b, n, 0, "a copy of print" ); types( *c, n, 0, "a clone of print" );
   { PR z( n ); types( z, n, 0, "print" ); REQ( "C23", z.ofs == &std::cout, "print does not print to std::cout" ); }
   raft::kernel *ks[] = { &a, &b, c.get() }; raft::kernel &k = *ks[ rnd( 3 ) ];
   std::vector< Q15 > in;
   for( unsigned i = 0; i < n; i++ ) in.push_back( c15::mk< u64 >( k, false, S( i ) ) );
   for( unsigned st = 0; st < 6; st++ )
   {
      feed( in );
      std::string exp; os.str( "" );
      std::vector< std::size_t > had;
      for( auto &q : in ) had.push_back( q.f->size() );
      alarm( 5 ); H( "print::run" ); auto r = k.run(); alarm( 0 );
      REQ( "C23", r == raft::proceed, "print::run does not ask to be run again" );
      for( unsigned i = 0; i < n; i++ )
      {
         const std::size_t left = in[ i ].f->size();
         REQ( "C23", had[ i ] == 0 || left < had[ i ], "print takes nothing from an input where an element waits" );
         for( std::size_t j = left; j < had[ i ]; j++ ){ exp += std::to_string( in[ i ].q.front().first ); if( delim ) exp += delim; in[ i ].q.pop_front(); }
      }
      REQ( "C23", os.str() == exp, "print prints \"%s\", \"%s\" expected", os.str().c_str(), exp.c_str() );
   }
   for( auto &q : in ) delete q.f;
}
static void writing()
{
   std::vector< u64 > got, exp; std::size_t pos = 0;
   Sink s{ &got, &pos };
   raft::writeeach< u64, Sink > a( s ), b( a );
   types( a, 1, 0, "write_each" ); types( b, 1, 0, "a copy of write_each" );
   raft::kernel &k = rnd( 2 ) ? static_cast< raft::kernel& >( a ) : b;
   std::vector< Q15 > in; in.push_back( c15::mk< u64 >( k, false, "0" ) );
   const unsigned more = rnd( 3 );
   for( unsigned i = 1; i <= more; i++ ){ k.input.addPort< u64 >( S( i ) ); in.push_back( c15::mk< u64 >( k, false, S( i ) ) ); }
   for( unsigned st = 0; st < 6; st++ )
   {
      feed( in );
      std::vector< std::size_t > had;
      for( auto &q : in ) had.push_back( q.f->size() );
      alarm( 5 ); H( "writeeach::run" ); auto r = k.run(); alarm( 0 );
      REQ( "C23", r == raft::proceed, "write_each does not ask to be run again" );
      for( unsigned i = 0; i < in.size(); i++ )
      {
         const std::size_t left = in[ i ].f->size();
         REQ( "C23", had[ i ] == 0 || left < had[ i ], "write_each takes nothing from an input where an element waits" );
         for( std::size_t j = left; j < had[ i ]; j++ ){ exp.push_back( in[ i ].q.front().first ); in[ i ].q.pop_front(); }
      }
      REQ( "C23", got == exp && pos == got.size(), "write_each handed over %zu elements (iterator at %zu), %zu expected, in order", got.size(), pos, exp.size() );
   }
   for( auto &q : in ) delete q.f;
}
static void reading()
{
   const unsigned n = rnd( 12 );
   std::vector< u64 > src; for( unsigned i = 0; i < n; i++ ) src.push_back( nid++ );
   const u64 *b = src.data(), *e = b + n;
   raft::readeach< u64, const u64* > x( b, e ), y( x );
   types( x, 0, 1, "read_each" ); types( y, 0, 1, "a copy of read_each" );
   raft::kernel &k = rnd( 2 ) ? static_cast< raft::kernel& >( x ) : y;
   FIFO *f = RingBuffer< u64, Type::Heap, false >::make_new_fifo( 16, 64, nullptr );
   k.output.getPortInfoFor( "0" ).setFIFO( f );
   alarm( 5 ); H( "readeach::run over " + S( n ) ); auto r = k.run(); alarm( 0 );
   REQ( "C23", r == raft::stop, "read_each does not stop after the last element" );
   REQ( "C23", f->size() == n, "read_each placed %zu elements of %u", (std::size_t) f->size(), n );
   for( unsigned i = 0; i < n; i++ ){ u64 v = 0; raft::signal s = raft::term; f->pop< u64 >( v, &s ); REQ( "C23", v == src[ i ] && s == raft::none, "read_each: element %u is %llu (signal %d), %llu expected", i, (unsigned long long) v, (int) s, (unsigned long long) src[ i ] ); }
   delete f;
}
static void function()
{
   const unsigned ni = rnd( 4 ), no = rnd( 4 );
   unsigned calls = 0; Port *in = nullptr, *out = nullptr; raft::kstatus ans = rnd( 2 ) ? raft::proceed : raft::stop;
   auto fn = [&]( Port &i, Port &o ) -> raft::kstatus { calls++; in = &i; out = &o; return ans; };
   raft::lambdak< u64 > k( ni, no, fn );
   types( k, ni, no, "a kernel made of a function" );
   auto r = k.run();
   REQ( "C23", calls == 1 && in == &k.input && out == &k.output && r == ans, "a kernel made of a function: %u calls, or with other ports, or another answer", calls );
   const unsigned i3 = rnd( 4 );
   raft::lambdak< u64, std::int32_t, float > m( i3, 3 - i3, fn );
   REQ( "C23", m.input.count() == i3 && m.output.count() == 3 - i3, "a kernel made of a function, three types: %zu inputs and %zu outputs", (std::size_t) m.input.count(), (std::size_t) m.output.count() );
   const std::type_info *t[] = { &typeid( u64 ), &typeid( std::int32_t ), &typeid( float ) };
   for( unsigned i = 0; i < 3; i++ ) REQ( "C23", ( i < i3 ? m.input : m.output ).getPortInfoFor( S( i < i3 ? i : i - i3 ) ).type == *t[ i ], "a kernel made of a function: port %u of three is of another type", i );
}
static void array()
{
   static u64 buf[ 64 ];
   const unsigned len = rnd( 40 ), n = 1 + rnd( 6 );
   H( "for_each of " + S( len ) + " elements over " + S( n ) );
   raft::for_each< u64 > k( buf, len, n );
   types( k, 0, n, "for_each" );
   std::size_t at = 0;
   for( unsigned i = 0; i < n; i++ )
   {
      PortInfo &pi = k.output.getPortInfoFor( S( i ) );
      REQ( "C23", pi.my_kernel == &k && pi.existing_buffer == buf + at && pi.start_index == at, "for_each: port %u covers the array from %zu, %zu expected", i, (std::size_t) pi.start_index, at );
      at += pi.nitems;
   }
   REQ( "C23", at == len, "for_each: the ports cover %zu of %u elements", at, len );
}
}
static void c23_kernels()
{
   switch( rnd( 6 ) )
   {
      case 0: c23::printing< '\0' >(); break; case 1: c23::printing< '#' >(); break; case 2: c23::writing(); break;
      case 3: c23::reading(); break; case 4: c23::function(); break; default: c23::array();
   }
}

int main( int argc, char **argv )
{
   PROP = argc > 1 ? argv[ 1 ] : "all";
   std::uint64_t seed = argc > 2 ? strtoull( argv[ 2 ], nullptr, 10 ) : 1;
   double secs = argc > 3 ? atof( argv[ 3 ] ) : 5;
   rng.seed( seed );
   for( int s : { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGALRM } ) ::signal( s, on_sig );
   auto t0 = clk::now();
   long trials = 0;
   struct P { const char *props; void (*fn)(); int every; } progs[] = {
      { "C12", c12_krun, 1 }, { "C12", c12_signals, 1 }, { "C12 C06", c12_simple_run, 5 }, { "C12", c12_start, 40 },
      { "C13", c13_ports, 1 }, { "C13", c13_inplace, 4 },
      { "C14", c14_link, 1 }, { "C14", c14_expr, 1 },
      { "C15", c15_split, 1 }, { "C15", c15_join, 1 }, { "C15", c15_single, 1 },
      { "C19", c19_own, 1 }, { "C20", c20_handlers, 1 }, { "C21", c21_dynalloc, PROP == "all" ? 20 : 1 }, { "C22", c22_exe, PROP == "all" ? 10 : 1 }, { "C23", c23_kernels, 1 },
#ifdef RT_FILE
      { "C16", c16_small, 1 }, { "C16", c16_large, 1 },
#endif
   };
   while( std::chrono::duration< double >( clk::now() - t0 ).count() < secs )
   {
      for( auto &p : progs )
      {
         if( !wants( p.props ) || trials % p.every ) continue;
         HIST.clear();
         crash_props = hang_props = p.props;
         try { p.fn(); }
         catch( const Stop & ){ alarm( 0 ); }
         catch( const std::exception &e ){ alarm( 0 ); if( wants( p.props ) ) FAIL( p.props, "unexpected exception: %s", e.what() ); }
      }
      trials++;
   }
   printf( "%ld trials, no disagreement\n", trials );
   fflush( stdout );
   _exit( 0 );
}
