#!/usr/bin/env python3
"""writes /verif/properties.jsonl (kept as a script so the statements are easy to diff)"""
import json, os
H='raftinc/ringbufferheap.tcc'; HA='raftinc/ringbufferheap_abstract.tcc'; HL='raftinc/ringbufferheap_lessabstract.tcc'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
prop('C01','Streams are FIFO: every element arrives once, in order, unchanged',
 'For a heap-backed stream of any element type, any capacity and any history of writes (push, insert, allocate/send, allocate_range/send_range) and reads (pop, pop_range, peek, recycle), the elements handed to the consumer are exactly the elements published by the producer, in publication order, each with its value unchanged, none lost, duplicated, overwritten before it is read, or invented. A call never reads or writes element storage outside the stream\'s buffer.',
 ['inputs','histories','configurations'],'every element type class (inline scalar, inline class, externally allocated class), every capacity >= 1, every position of the read and write cursors including wrap-around, every element value, every call sequence',
 'The stable tests only evaluate type traits and a keyed set; no stable test moves an element through a stream, and any test could sample only a few capacities and cursor positions.',
 ['raftinc/fifo.hpp',H,HA,HL,'raftinc/bufferdata.tcc','raftinc/pointer.hpp','src/pointer.cpp','raftinc/ringbuffer.tcc'],
 [('local_push / local_insert / send / send_range',H+', '+HA),('local_pop / local_pop_range / local_peek / local_recycle',H+', '+HA),('Pointer::inc / incBy / val','src/pointer.cpp')],
 [('read_pt, write_pt','cursor and lap count of consumer and producer','raftinc/bufferdata.tcc'),('store[]','element slots','raftinc/bufferdata.tcc')],
 ['FIFO::push','FIFO::pop','FIFO::peek','FIFO::insert','FIFO::pop_range'])
prop('C02','size, space_avail and capacity describe the stream exactly',
 'With nobody else using the stream, size() is the number of elements published and not yet consumed, capacity() is the number of slots the stream was created or resized with, and space_avail() is capacity() minus size(); all three stay consistent for every cursor position, including a completely full and a completely empty stream after any number of wrap-arounds. While the other end is running, the producer never sees more free space than there is and the consumer never sees more elements than there are, and no value ever exceeds the capacity.',
 ['inputs','histories','schedules'],'every capacity, every cursor pair and lap count, every sequence of operations, every interleaving of one producer and one consumer',
 'No stable test calls size(); full versus empty is only distinguishable by lap counts, which a sampled run rarely drives through all combinations.',
 [HA,HL,H,'src/pointer.cpp','raftinc/bufferdata.tcc'],[('size(), space_avail(), capacity()',HL+', '+HA),('Pointer lap counting','src/pointer.cpp')],
 [('read_pt/write_pt laps','tell full from empty','raftinc/pointer.hpp')],['FIFO::size','FIFO::space_avail','FIFO::capacity'])
prop('C03','Signals travel with the element they were sent with',
 'The signal given when an element is published is the signal handed back when exactly that element is popped or peeked; elements published without a signal carry none, a bulk insert attaches its signal to its last element only, and pop_range returns every element paired with its own signal. Signals are never dropped, duplicated or attached to a neighbouring element, for any capacity and cursor position.',
 ['inputs','histories','configurations'],'every signal value, element type class, capacity, cursor position and mix of publication and consumption calls',
 'No stable test sends a signal; the signal array is indexed separately from the element array, so a mismatch shows only at particular cursor positions.',
 [H,HA,'raftinc/fifo.hpp','raftinc/bufferdata.tcc','src/signal.cpp','raftinc/autorelease.tcc'],
 [('signal[] written next to store[]',H),('FIFO::push/insert/send default signal','raftinc/fifo.hpp'),('Buffer::Signal','src/signal.cpp')],
 [('signal[]','per-slot signal','raftinc/bufferdata.tcc')],['FIFO::pop','FIFO::peek','FIFO::pop_range','FIFO::signal_peek'])
prop('C04','Looking ahead does not consume; recycle discards exactly what it is told',
 'peek returns a reference to the oldest unread element and leaves the stream unchanged, so peeking again or popping yields the same element; peek_range(n) exposes the n oldest elements and their signals in order, across the wrap-around point, without consuming them. recycle(n) then discards exactly the n oldest elements (fewer only when the stream is closed and drained), touching nothing else.',
 ['inputs','histories','configurations'],'every n, capacity, cursor position and element type class',
 'No stable test peeks or recycles.',
 [H,HA,'raftinc/fifo.hpp','raftinc/autorelease.tcc'],[('local_peek / local_peek_range / unpeek / local_recycle',H),('autorelease views','raftinc/autorelease.tcc')],
 [],['FIFO::peek','FIFO::peek_range','FIFO::unpeek','FIFO::recycle'])
prop('C05','In-place writes become visible exactly once, and only when sent',
 'allocate and allocate_range hand out the next free slot(s) of the stream without making them visible to the consumer; send publishes the one allocated element, send_range publishes exactly the n allocated elements, in order, and deallocate withdraws the allocation leaving the stream as if it had never happened. send, send_range and deallocate without a preceding allocation have no effect on the stream\'s contents.',
 ['inputs','histories','configurations'],'every n up to the capacity, every cursor position, element type class (allocate_range: scalar element types) and sequence of allocation calls',
 'No stable test allocates in place; the allocation state spans several calls.',
 [H,HA,'raftinc/fifo.hpp','raftinc/fifoabstract.tcc','raftinc/autorelease.tcc'],[('local_allocate / local_allocate_n / send / send_range / deallocate',H),('producer_data.allocate_called, n_allocated','raftinc/fifoabstract.tcc')],
 [('allocate_called','an allocation is outstanding','raftinc/fifoabstract.tcc'),('n_allocated','how many','raftinc/fifoabstract.tcc')],['FIFO::allocate','FIFO::allocate_range','FIFO::send','FIFO::send_range','FIFO::deallocate'])
prop('C06','Every element object is constructed before use and destroyed exactly once',
 'For class element types the stream never assigns to, copies from or hands out an object that has not been constructed, never destroys an object twice, and destroys or releases every object it constructed once the element has been popped, recycled or its allocation withdrawn. Heap storage the stream obtains for an element that is too large to be stored inline is released exactly once when the element leaves the stream: when it is popped, recycled or its allocation withdrawn, or, for an element a kernel handed on to its output by reference, when the last kernel that received it recycles it. (allocate_range is for scalar element types; a kernel that passes a peeked element on recycles it.)',
 ['inputs','histories','configurations'],'every class element type (stored inline and stored externally), capacity, cursor position and sequence of operations',
 'No stable test streams an object with a non-trivial constructor or destructor.',
 [H,'raftinc/fifo.hpp','raftinc/bufferdata.tcc','raftinc/alloc_traits.tcc','src/schedule.cpp'],[('per-type-class local_pop/local_recycle/deallocate',H),('allocate< T >','raftinc/fifo.hpp')],
 [('store[]','objects or pointers to objects','raftinc/bufferdata.tcc')],['FIFO::push','FIFO::pop','FIFO::recycle','FIFO::deallocate'])
prop('C07','A closed stream is drained before the consumer is told it is closed',
 'After the producer side closes a stream, every element published before the close can still be read, in order; a blocking read (pop, peek, peek_range) reports the closed port only when the stream is closed and holds no (or, for peek_range, too few) elements, and never while elements remain or while the stream is open. recycle on a closed stream discards what is left and returns instead of failing.',
 ['inputs','histories','schedules'],'every moment at which the producer closes relative to the consumer\'s steps, every capacity and fill level',
 'The order of the consumer\'s size check and closed check matters only in a window of a few instructions.',
 [H,HA,HL],[('size()>0 test before is_invalid() && size()==0',H),('invalidate / is_invalid',HA)],
 [('is_valid','cleared when the producer closes','raftinc/bufferdata.tcc')],['FIFO::pop','FIFO::peek','FIFO::peek_range','FIFO::recycle','FIFO::invalidate'])
prop('C08','One producer and one consumer never corrupt each other',
 'With one thread producing and another consuming on the same stream, under every interleaving of their steps each consumed element equals the element published at that position with its own signal, the producer only writes slots the consumer has finished with, and the consumer only reads slots whose element and signal have been completely written. Neither side ever moves the other side\'s cursor.',
 ['schedules','histories','inputs'],'every interleaving (sequentially consistent) of one producer thread and one consumer thread, every capacity, element type class and call mix',
 'Tests run a handful of schedules; the publication order bugs need a preemption between two adjacent stores.',
 [H,HA,HL,'src/pointer.cpp'],[('element and signal stored before the write cursor moves',H),('read cursor moved after the element is copied out',H),('size() retry logic',HA)],
 [('read_pt','moved only by the consumer','raftinc/bufferdata.tcc'),('write_pt','moved only by the producer','raftinc/bufferdata.tcc')],['FIFO::push','FIFO::pop','FIFO::size'])
prop('C09','Resizing a stream preserves its contents',
 'Resizing a stream to a larger capacity keeps every unread element and its signal, in order, keeps the closed state and the transfer statistics, and afterwards capacity() is the new capacity and every stream operation works on the new buffer. A resize is carried out only when no operation is registered as using the buffer, it never happens on a stream built over user-supplied memory, and when the application is finished or the stream is closed it changes nothing.',
 ['inputs','histories','configurations'],'every old and new capacity, cursor position, fill level, signal content and element type class at the moment the buffer is swapped',
 'No stable test resizes; only particular cursor positions expose a wrong copy range.',
 ['raftinc/datamanager.tcc','raftinc/bufferdata.tcc','raftinc/ringbuffer.tcc','src/pointer.cpp'],[('DataManager::resize','raftinc/datamanager.tcc'),('Data::copyFrom','raftinc/bufferdata.tcc'),('RingBuffer::resize','raftinc/ringbuffer.tcc')],
 [('buffer, thread_access, stats pointers','must all refer to the live buffer','raftinc/datamanager.tcc, raftinc/fifoabstract.tcc')],['FIFO::resize'])
prop('C10','Buffer accesses are announced to the resizer and always withdrawn',
 'Every stream operation touches element, signal and cursor storage only between announcing itself as a user of the buffer and withdrawing that announcement, after checking that no resize is in progress. Every call that announces itself withdraws the announcement before it returns or throws, except where the user still holds a reference (allocate until send/deallocate, peek until unpeek), and it never withdraws another operation\'s announcement.',
 ['inputs','histories','schedules'],'every operation, every exit path including exceptions, every element type class, resizing or not',
 'A stuck or missing announcement is invisible without a concurrent resize; no stable test resizes.',
 [H,HA,HL,'raftinc/datamanager.tcc','raftinc/threadaccess.hpp'],[('enterBuffer / exitBuffer / notResizing','raftinc/datamanager.tcc')],
 [('thread_access[], checking_size','who is using the buffer','raftinc/datamanager.tcc')],['DataManager::enterBuffer','DataManager::exitBuffer','DataManager::resize'])
prop('C11','Transfer and blocking statistics count what really happened',
 'The write statistics of a stream count every element published and the read statistics every element popped or copied out, each exactly once; the blocked flag of an end is raised only when that end really had to wait, and reading the statistics returns the accumulated counts and resets them. The fraction of blocked writes and the suggested element count derived from them are exactly the documented functions of these counts.',
 ['inputs','histories'],'every sequence of publishing, consuming and sampling calls, every element type class and capacity',
 'No stable test reads the statistics.',
 [H,HA,HL,'raftinc/blocked.hpp','src/blocked.cpp','raftinc/bufferdata.tcc'],[('write_stats / read_stats updates',H),('get_zero_write_stats / get_zero_read_stats / get_frac_write_blocked',HA+', '+HL),('Blocked','src/blocked.cpp')],
 [('write_stats, read_stats','count and blocked flag','raftinc/blocked.hpp')],['FIFO::get_zero_read_stats','FIFO::get_zero_write_stats'])
prop('C12','The scheduler runs a kernel exactly while it has work, then closes its outputs',
 'A kernel is run when it is a source or when its inputs hold data (at least one of them under the any_port rule, all of them under the all_port rule), and is never run again once it has asked to stop or all its inputs are closed and it has nothing left that it could be run with; input that could still be processed is never abandoned. When a kernel finishes, each of its output streams is closed, and a kernel that still has something to do is never retired and its outputs are never closed early. start() of the thread-per-kernel scheduler runs every kernel of the map on a thread of its own and returns only once all of them have finished and been joined.',
 ['histories','inputs','programs'],'every number of ports, every combination of fill level and closed state of the inputs, everything the upstream kernels may do between two steps of the scheduler, every return value of the kernel\'s run()',
 'No stable test runs a scheduler.',
 ['src/schedule.cpp','src/simpleschedule.cpp','raftinc/simpleschedule.hpp','raftinc/schedule.hpp','raftinc/kernelkeeper.tcc'],[('Schedule::kernelRun / kernelHasInputData / kernelHasNoInputPorts / invalidateOutputPorts / checkSystemSignal','src/schedule.cpp'),('simple_schedule::simple_run / handleSchedule / start','src/simpleschedule.cpp')],
 [],['kernel::run','FIFO::invalidate'])
prop('C13','Ports are what was declared: one stream per name, found by that name',
 'Adding a port makes it retrievable under exactly the declared name with the declared element type; declaring the same name twice, or asking for an unknown name or for a single unnamed port when there is not exactly one, is reported by the documented exception instead of returning something else. Iterating a port container visits every port exactly once and count/hasPorts agree with it.',
 ['inputs','programs'],'every set of port names, every order of declaration and lookup',
 'The stable tests declare no ports.',
 ['src/port.cpp','raftinc/port.hpp','src/portiterator.cpp','src/port_info.cpp'],[('Port::addPort / operator[] / getPortType / getPortInfo / count','src/port.cpp, raftinc/port.hpp')],
 [('portmap','name to PortInfo','raftinc/portmap_t.hpp')],['Port::addPort','Port::operator[]','Port::begin'])
prop('C14','Linking connects exactly the ports an expression names, and each link gets one stream',
 'Linking two kernels records, on the source\'s output port and on the destination\'s input port, each other (kernel and port name) as the far end, the requested buffer size and ordering, and nothing else anywhere. Linking ports of different element types, a port that does not exist, a port that is already linked, or an unnamed port of a kernel that does not have exactly one port on that side raises the documented exception and leaves both ports as they were. A topology expression (>>, <=, >=, named ports, raft::order::out, in any grouping) links exactly the pairs it denotes, in order, with one copy of the kernels after a split (or in front of a join) per branch. An application with an unconnected port is refused when it is started; otherwise every link gets exactly one stream, of its element type and of the requested capacity, shared by exactly its two ports.',
 ['inputs','programs'],'every set of kernels, port names, element types and prior connection state; every expression and grouping',
 'The stable tests link nothing.',
 ['src/mapbase.cpp','raftinc/mapbase.hpp','src/map.cpp','raftinc/map.hpp','src/kpair.cpp','raftinc/kpair.hpp','src/kernel.cpp','src/graphtools.cpp','src/allocate.cpp','src/stdalloc.cpp','src/port_info.cpp'],[('MapBase::join / portNotFound / MapBase::link / updateKernels','src/mapbase.cpp, raftinc/mapbase.hpp'),('operators and pair chains','src/kpair.cpp'),('map::operator+=, inline_*, checkEdges','src/map.cpp'),('kernel::allConnected / getEnabledPort','src/kernel.cpp'),('GraphTools','src/graphtools.cpp'),('Allocate::allocate / initialize','src/allocate.cpp')],
 [('PortInfo.other_kernel / other_name / fixed_buffer_size / out_of_order','the far end and what was asked of the link','raftinc/port_info.hpp')],['map::link','MapBase::join','map::operator+=','map::exe'])
prop('C15','Split and join move every element exactly once',
 'A split or join kernel takes each element waiting on its inputs and places it, with its value unchanged, on exactly one of its outputs; it takes from a stream only as many elements as it can place, so none is lost or duplicated whatever the fill levels and capacities of the streams. Elements taken from one input and placed on one output keep their order.',
 ['inputs','histories','configurations'],'every number of ports, every fill level and capacity of each stream at each step',
 'No stable test runs a split or join; losing elements needs an output with less space than the input has data.',
 ['raftinc/split.tcc','raftinc/join.tcc','raftinc/roundrobin.hpp','src/roundrobin.cpp','raftinc/splitmethod.hpp','raftinc/autorelease.tcc'],[('split::run / join::run','raftinc/split.tcc, raftinc/join.tcc'),('roundrobin::select_fifo','src/roundrobin.cpp'),('splitmethod::send / get','raftinc/splitmethod.hpp')],
 [],['split::run','join::run'])
prop('C16','Reading a file in chunks covers every byte exactly once',
 'The chunks a file reader sends, on however many output ports, cover the file from its first to its last byte without gaps and in order; each chunk, and every copy of it, reports its real position, length, number and text. Without a chunk offset no byte is in two chunks; with a chunk offset of n bytes every piece of n bytes of the file lies in exactly one chunk, so a text of that length is reported by the search kernel exactly once for each place in the file where it occurs, chunk boundaries included, with its true position. The reader stops after the last chunk and never writes past a chunk\'s buffer.',
 ['inputs','configurations'],'every file length and content, chunk offset, number of ports and search term',
 'No stable test reads a file.',
 ['raftinc/filechunk.tcc','raftinc/chunkiterator.tcc','raftinc/fileio.tcc','raftinc/search.tcc'],[('filereader::run, chunk splitting','raftinc/fileio.tcc'),('search::run','raftinc/search.tcc')],
 [],['filereader::run','search::run'])
prop('C17','A resize and a stream operation running at the same time stay consistent',
 'When the run-time monitor resizes a stream while its producer and consumer are active, no operation ever uses a buffer that has been released and no element is lost, under every interleaving.',
 ['schedules'],'every interleaving of producer, consumer and monitor thread','Needs a preemption inside a few-instruction window of three threads.',
 ['raftinc/datamanager.tcc','raftinc/bufferdata.tcc',H],[('enterBuffer/notResizing against resize','raftinc/datamanager.tcc')])
prop('C18','Blocked operations make progress',
 'A producer blocked on a full stream eventually continues once the consumer has made room, a consumer blocked on an empty stream eventually continues once an element arrives or the stream is closed, and a map whose kernels all finish terminates.',
 ['schedules','histories'],'every fair schedule','Liveness cannot be tested with finite runs.',
 [H,'src/simpleschedule.cpp','src/map.cpp'],[('spin/yield loops',H)])
prop('C19','Every kernel and every stream is destroyed exactly once, by its owner',
 'A kernel created by kernel::make belongs to the wrapper it is returned in until an expression names it, from then on to the map it is linked into; it is destroyed exactly once, by whoever owns it last, and copying a wrapper hands the kernel over. A kernel the user created is never destroyed by the library. Every stream made for an application is destroyed exactly once, together with the allocator that made it. Every kernel has an id of its own.',
 ['inputs','programs','histories'],'every set of kernels and streams, every expression, every way of building a kernel and of handing wrappers on',
 'The stable tests build no map; leaks and double deletes of particular link forms show only under a leak checker.',
 ['src/kernel_wrapper.cpp','raftinc/kernel_wrapper.hpp','src/kernel.cpp','raftinc/kernel.hpp','src/mapbase.cpp','src/kpair.cpp','src/allocate.cpp'],[('kernel_wrapper','src/kernel_wrapper.cpp'),('kernel::make, kernel::kernel','raftinc/kernel.hpp, src/kernel.cpp'),('MapBase::~MapBase / updateKernels','src/mapbase.cpp'),('Allocate::~Allocate / initialize','src/allocate.cpp')],
 [('internally_created_kernels','the kernels a map destroys','raftinc/mapbase.hpp'),('allocated_fifo','the streams an allocator destroys','raftinc/allocate.hpp')],['kernel::make','kernel_wrapper','map::~map'])
prop('C20','System signals reach their handler, once',
 'A system signal at the head of an input stream is taken off that stream and handed exactly once, together with its stream and the kernel it reached, to the handler registered last for it, whose answer decides whether the kernel goes on. A signal without a handler is reported with NoSignalHandlerFoundException. Registering a handler changes what happens to no other signal. Every scheduler handles the quit signal, by closing the stream it came on and stopping the kernel.',
 ['inputs','histories'],'every signal number, every set and order of registered handlers, every kernel and stream, every answer of a handler',
 'The stable tests register no handler and send no signal to a scheduler.',
 ['src/systemsignalhandler.cpp','raftinc/systemsignalhandler.hpp','src/schedule.cpp','raftinc/schedule.hpp'],[('SystemSignalHandler::addHandler / callHandler','src/systemsignalhandler.cpp'),('Schedule::Schedule / quitHandler / checkSystemSignal','src/schedule.cpp')],
 [('handlers','the handler of every signal','raftinc/schedule.hpp')],['SystemSignalHandler::addHandler','SystemSignalHandler::callHandler'])
prop('C21','Streams are enlarged automatically only when, and always when, they stay full',
 'The dynamic allocator makes exactly one stream for every link before it reports to be ready. While the application runs it enlarges a stream to twice its capacity when that stream itself was found with at least 80 percent of its writes blocked at more than three looks since it was last enlarged, and only then; what other links do has no influence, a stream whose capacity the user fixed is never enlarged, and enlarging is given up when the application ends.',
 ['histories','configurations'],'every number of links, every history of blocked looks at each of them, every address the ports may have',
 'The stable tests run no allocator; counters mixed up between links show only with many links and particular addresses.',
 ['src/dynalloc.cpp','raftinc/dynalloc.hpp','src/stdalloc.cpp','src/allocate.cpp','src/graphtools.cpp'],[('dynalloc::run / hash','src/dynalloc.cpp'),('stdalloc::run','src/stdalloc.cpp'),('GraphTools::BFS','src/graphtools.cpp')],
 [('size_map','looks that found a link blocked','src/dynalloc.cpp')],['map::exe'])
prop('C22','An application starts only when it is complete and is taken down only when it has finished',
 'Executing a map checks it first and starts nothing when a port is unconnected. Kernels are partitioned before streams are made, and no kernel runs before the allocator has made every stream and the scheduler is initialised. The allocator, the scheduler and the parallelism monitor of one execution work on that map and on each other; allocator and monitor are told to stop only after the scheduler has finished, every thread is waited for exactly once, and none of the three is destroyed while a thread still uses it. No list of kernels is left locked.',
 ['programs','schedules'],'every partitioner, scheduler, allocator and parallelism monitor, every map and every set of sub maps',
 'The stable tests execute no map.',
 ['raftinc/map.hpp','src/allocate.cpp','src/stdalloc.cpp','src/dynalloc.cpp','raftinc/kernelkeeper.tcc'],[('map::exe','raftinc/map.hpp'),('Allocate::waitTillReady / setReady','src/allocate.cpp'),('stdalloc::run, dynalloc::run','src/stdalloc.cpp, src/dynalloc.cpp')],
 [('exit_alloc, exit_para, ready','what the threads tell each other','raftinc/map.hpp, raftinc/allocate.hpp')],['map::exe'])
prop('C23','The ready-made kernels move every element exactly once and in order',
 'read_each places the elements of its container on its output once each, in order and without a signal, and stops after the last. write_each hands the elements of its inputs to its output iterator once each, in the order of each input, and moves the iterator on once per element; print writes them to its output stream in the same way, each followed by the delimiter if there is one. Both take off their inputs exactly what they handed over, and no input where an element waits is left out when they run. A kernel made of a function has exactly the ports asked for, of the types given (inputs first), and running it calls the function once, with its own ports, and answers its answer. for_each offers an array as output ports which cover it without gap or overlap. A copy of a read_each, write_each or print has as many ports as the original and works on the same container, iterator or output stream.',
 ['inputs','configurations'],'every container, every number of elements waiting on every input, every number of ports, every array length and number of ports over it',
 'The stable tests run none of these kernels; counts and order sampled for one container or one port settle nothing about the others.',
 ['raftinc/readeach.tcc','raftinc/writeeach.tcc','raftinc/print.tcc','raftinc/lambdak.tcc','raftinc/foreach.tcc','raftinc/port.hpp','raftinc/kernel.hpp','src/parallelk.cpp','src/portiterator.cpp'],
 [('readeach::run','raftinc/readeach.tcc'),('writeeach::run','raftinc/writeeach.tcc'),('print::run','raftinc/print.tcc'),('lambdak::run / add_ports','raftinc/lambdak.tcc'),('Port::addInPlacePorts','raftinc/port.hpp')],
 [('begin','the next element read_each places','raftinc/readeach.tcc'),('input_port_count','the ports of a print','raftinc/print.tcc')],['raft::read_each','raft::write_each','raft::print','raft::lambdak','raft::for_each'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
