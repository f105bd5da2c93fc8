#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from what is stated here and in checks.py"""
import json, os, sys
TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, TOP)
from checks import CHECKS, LEVEL
P = []


def prop(id, title, statement, over, text, why, files, *mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over.split(), text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files.split(), mechanism=[dict(name=m.split(" @ ")[0], where=m.split(" @ ")[1]) for m in mech])))


RB = "raftinc/ringbufferheap.tcc raftinc/ringbufferheap_abstract.tcc raftinc/ringbufferheap_lessabstract.tcc raftinc/fifo.hpp raftinc/bufferdata.tcc raftinc/datamanager.tcc src/pointer.cpp"

prop("Q01", "Streams deliver every element exactly once, intact and in order",
     """For one writer and one reader on a stream, the sequence of elements that the reader takes is exactly the sequence that the writer
     sent: nothing is lost, duplicated, reordered or altered. This holds for every element type (plain, class types such as strings, and types
     larger than a cache line) and for any mix of the writing calls (push, insert, allocate and send, scoped allocation, ranges) with the reading calls
     (pop, pop_range, scoped pop, peek, peek_range, recycle).""",
     "schedules histories inputs", "all interleavings of one writer thread with one reader thread, all call sequences, capacities from 1 up, all supported element types",
     "The tests push a few hundred integers through fixed topologies; order, wrap-around at every capacity and mixes of calls under contention are not reached.",
     RB, "push/pop, allocate/send, ranges @ raftinc/ringbufferheap.tcc", "positions and wrap @ src/pointer.cpp", "type dispatch @ raftinc/fifo.hpp")
prop("Q02", "A signal stays with the element it was sent with",
     """Each element is delivered together with exactly the signal that the writer attached to it, and with no signal if none was attached, whichever
     calls send and receive it. For inserted sequences the signal belongs to the last element; looking at the front signal without taking the element
     gives the signal of the front element.""",
     "histories schedules inputs", "all call sequences, signal values, element types and capacities; also across wrap-around and across resizes",
     "No test reads a signal back, other than the implicit end of stream.",
     RB + " raftinc/signaldata.hpp raftinc/autorelease.tcc", "signal array kept beside the elements @ raftinc/bufferdata.tcc", "signal_peek and signal_pop @ raftinc/ringbufferheap_abstract.tcc", "pop_s, peek_range objects @ raftinc/autorelease.tcc")
prop("Q03", "Resizing a live stream is invisible to its two ends",
     """A stream whose capacity is raised while it is in use loses, duplicates, reorders and alters nothing: the queued elements, their signals and the rest
     of the traffic are the same as without the resize, and the statistics of what passed through it are kept. After the resize the capacity is the one asked for.""",
     "schedules histories", "all moments of a resize relative to calls of the writer and of the reader (from a third thread), all fill levels, read positions and wrap states, repeated resizes",
     "The tests never fill a buffer long enough for the run-time to grow it, and none resizes by hand.",
     RB + " src/dynalloc.cpp raftinc/threadaccess.hpp", "resize and copyFrom @ raftinc/bufferdata.tcc", "enter/exit buffer handshake @ raftinc/datamanager.tcc")
prop("Q04", "A stream never holds more than its capacity, and accounts for every slot",
     """The number of elements queued never exceeds the capacity, a write on a full stream and a read on an empty open stream wait until the other side makes
     progress, and they do proceed once it did. Seen from a quiet stream, the size is the number of elements written and not yet read, and the size plus the space available
     is the capacity.""",
     "schedules histories", "all call sequences and interleavings of writer and reader, all capacities from 1 up, runs of any length (positions wrap any number of times)",
     "Back-pressure needs a writer that outruns a reader at the exact edge of full; the tests assert nothing on occupancy.",
     RB, "size and space_avail @ raftinc/ringbufferheap_abstract.tcc", "wrap indicators @ src/pointer.cpp")
prop("Q05", "Closing a stream loses nothing and ends its reader",
     """After the writer closes a stream the reader still gets every element that was sent, and then each further read (pop, peek, range or scoped) raises the closed-port exception
     instead of waiting; a range read for more than what is left raises the no-more-data exception and leaves the elements readable. A reader that was already waiting when
     the stream is closed is woken in the same way, and no read fails that way while the stream is open.""",
     "schedules histories", "all moments of the close relative to the reader's calls, all numbers of elements left",
     "A test ends when its stream does; a close that overtakes the last element, or a waiting reader that is missed, shows only in rare schedules.",
     RB + " raftinc/portexception.hpp", "invalidate and is_invalid @ raftinc/ringbufferheap_abstract.tcc", "waiting loops of reads @ raftinc/ringbufferheap.tcc")
prop("Q06", "Peeking does not consume, and recycling consumes exactly what is asked",
     """A peek returns the front element (a range peek the n front elements, in order, each with its signal) and leaves the stream as it was, however often it is repeated, also where
     the range wraps around the end of the buffer; what was peeked keeps its value until it is released. Recycling n removes exactly the n front elements.""",
     "histories inputs", "all call sequences and fill levels, all range lengths up to the capacity, all wrap positions",
     "The tests peek at one element at a time from an unwrapped buffer.",
     RB + " raftinc/autorelease.tcc", "local_peek, local_peek_range, local_recycle @ raftinc/ringbufferheap.tcc", "range object @ raftinc/autorelease.tcc")
prop("Q07", "In-place writing publishes exactly what was sent",
     """An element that is allocated in place becomes visible to the reader only when it is sent, with the value that it has then; a range of n allocated slots becomes n elements in
     order, and a scoped allocation is sent when its scope ends. An allocation that is given back without being sent never reaches the reader and leaves the stream as it was, and
     asking again before sending gives the same slot.""",
     "histories inputs", "all call sequences, all element types, all fill levels and wrap positions",
     "The tests that allocate always send at once and only integers.",
     RB + " raftinc/autorelease.tcc", "local_allocate, send, deallocate, allocate_range, send_range @ raftinc/ringbufferheap.tcc")
prop("Q08", "Each element object is destroyed exactly once and never used outside its life",
     """For class-type elements, every object that the stream constructs (by copy, move, in-place allocation, resize) is destroyed exactly once when it has been taken, and no dead or
     unconstructed object is ever read, assigned or destroyed. When the stream is gone no element object and no memory is left, also if elements were still queued.""",
     "histories schedules inputs", "all call sequences, class types inline and larger than a cache line, with resizes and two threads",
     "The tests look at values only; a leak or a double destruction of an element passes them.",
     RB + " raftinc/alloc_traits.tcc src/schedule.cpp", "placement construction, recycle destructors @ raftinc/ringbufferheap.tcc", "external objects and their release @ src/schedule.cpp")
prop("Q09", "Large elements are passed on without loss, aliasing or double release",
     """A kernel that takes an element larger than a cache line and passes it on (by reference while it is peeked, by copy, or by modifying it first) delivers it intact downstream; kernels
     further down and the run-time release each such element exactly once, after its last use. Elements that a kernel takes and does not pass on are released as well.""",
     "programs schedules histories", "chains and fans of kernels that forward, drop, copy or replace large elements, in any order and with any number per run, under all schedules",
     "One test forwards large elements and checks neither lifetime nor every path.",
     "src/schedule.cpp raftinc/ringbufferheap.tcc raftinc/fifo.hpp", "peek sets and pointer sets, collection after each run @ src/schedule.cpp", "forwarding test on push @ raftinc/ringbufferheap.tcc")
prop("Q10", "A stream over existing memory yields exactly the elements of that memory",
     """A stream that is built over an array the user already has delivers the elements of the array, in order, each once, without copying or
     altering the array; it counts as full at the start, and drained it can be written again or closed like any other stream. A kernel that
     offers an array to its consumers in this way, whole or in parts, gives each element to exactly one of them, and each part tells where in the array it starts.""",
     "inputs histories", "all array lengths and contents, all reading call sequences",
     "One example streams one small array.",
     "raftinc/bufferdata.tcc raftinc/ringbufferheap.tcc raftinc/foreach.tcc src/allocate.cpp", "existing-memory buffer @ raftinc/bufferdata.tcc", "in-place ports and for_each @ raftinc/foreach.tcc")
prop("R01", "Running a graph computes its dataflow function and then returns",
     """For an acyclic graph of deterministic kernels the run returns, and each sink has received exactly the sequence that the composition of the kernels defines, independent of scheduling,
     buffer sizes, memory policy and partitioning. Every element produced upstream of a kernel that runs to its end is consumed before that kernel is ended.""",
     "programs schedules configurations", "all acyclic graphs of chains, fan-outs and fan-ins, element types, buffer sizes, allocators and partitioners, all schedules",
     "The tests run eight fixed graphs at one speed each.",
     "raftinc/map.hpp src/map.cpp src/schedule.cpp src/simpleschedule.cpp src/allocate.cpp", "exe @ raftinc/map.hpp", "kernelRun and end of stream @ src/schedule.cpp", "thread per kernel @ src/simpleschedule.cpp")
prop("R02", "Kernels are run one call at a time, and never again after they ended",
     """The scheduler never runs a kernel in two threads at once, gives every kernel of the graph at least the runs that its input calls for, and does not run it again once it
     returned the stop status. When a kernel ends, all of its outputs are closed; the run returns only after every kernel ended, and nothing runs afterwards.""",
     "schedules programs", "all graphs and schedules, kernels that stop by themselves and kernels that end with their input, sources and sinks",
     "A second thread in the same kernel, or a late run, would show only as a rare wrong value.",
     "src/schedule.cpp src/simpleschedule.cpp raftinc/simpleschedule.hpp", "kernelRun @ src/schedule.cpp", "thread bookkeeping @ src/simpleschedule.cpp")
prop("R03", "A kernel is run only when its firing rule is met",
     """A kernel with inputs that fires on any port is run only when at least one of its inputs has data, and one that fires on all ports only when each of them has; sources are run until they stop.
     The rule in force is the one the kernel set, and data that arrives before the inputs close is still offered to it.""",
     "schedules programs", "all arrival orders over 1 to many inputs, inputs that close at different times, both rules",
     "The rule is invisible to the tests: a kernel that is run too early merely waits inside a read.",
     "src/schedule.cpp raftinc/kernel.hpp raftinc/rafttypes.hpp", "kernelHasInputData @ src/schedule.cpp")
prop("R04", "Buffer policies change capacity, never content; a fixed size is honoured",
     """With any allocator the streams carry the same elements; a link that was given a size has exactly that capacity for the whole run. A link that was given none starts
     at the default, and grows by doubling only, when its writer stays blocked and the policy is the growing one; it never shrinks.""",
     "configurations schedules programs", "all allocators, requested sizes, fast and slow consumers, element sizes",
     "The growth logic needs a writer blocked for several milliseconds; no test does that or reads a capacity.",
     "src/dynalloc.cpp src/stdalloc.cpp src/allocate.cpp raftinc/allocate.hpp", "size monitor and resize @ src/dynalloc.cpp", "initial capacities, fixed sizes @ src/allocate.cpp")
prop("T01", "A topology expression builds exactly the graph that it describes",
     """For every expression of kernels, port selections and the operators that chain, split, join and duplicate, the run-time graph has exactly the kernels, clones and links which the expression defines, between the
     ports named (or the only port, or the ports in order), and no other. So an item that enters at a source reaches the sinks over exactly the described paths.""",
     "programs", "all well-formed expressions, with any nesting of splits, joins and duplications, group sizes, port names and link attributes",
     "The tests contain a handful of expressions and check a sum at the end.",
     "src/map.cpp src/kpair.cpp raftinc/kpair.hpp raftinc/map.hpp src/mapbase.cpp raftinc/mapbase.hpp", "operators @ src/kpair.cpp", "inline_cont, inline_split, inline_join, inline_dup_join @ src/map.cpp", "link @ raftinc/mapbase.hpp")
prop("T02", "Adding an expression returns its sources and its destinations",
     """Adding a topology expression to a map returns exactly the kernels at its beginning and the kernels at its end, in order, with clones included; extending the graph from what was
     returned connects those kernels.""",
     "programs", "all well-formed expressions",
     "The tests ignore what is returned, or use it for one shape.",
     "src/map.cpp src/kernel_pair_t.cpp raftinc/kernel_pair_t.hpp", "addSrc, addDst @ src/map.cpp")
prop("T03", "Graphs that cannot run are rejected with the documented exception",
     """Linking a port that does not exist, a kernel whose port is ambiguous, two ports of different types, or a port that is already linked, and running a graph with a port left unlinked, each raise the exception documented
     for it before any kernel runs; adding a port twice and looking up an unknown port do too. A well-formed graph raises none, and a rejected link leaves the ports as they were.""",
     "programs inputs", "all malformed and well-formed single steps on graphs of any size",
     "The tests cover three of these cases once each.",
     "src/port.cpp raftinc/port.hpp src/mapbase.cpp raftinc/mapbase.hpp raftinc/portexception.hpp raftinc/mapexception.hpp src/kernel_all.cpp", "port lookup @ src/port.cpp", "join checks @ src/mapbase.cpp", "checkEdges @ src/map.cpp")
prop("T04", "The map owns exactly the kernels that it was given to own",
     """Kernels made for the map, and the clones that it makes, are destroyed exactly once, when the map is; kernels that belong to the user are never destroyed by it. Building and running a graph leaks nothing,
     whether it runs, is never run, or is rejected when it is run.""",
     "programs", "all graphs with any mix of user-owned, map-owned and cloned kernels",
     "A leak or a double destruction passes the tests.",
     "src/mapbase.cpp raftinc/kernel.hpp raftinc/kernel_wrapper.hpp src/map.cpp src/kpair.cpp raftinc/mapbase.hpp", "internally created kernels @ src/mapbase.cpp", "kernel::make and clone @ raftinc/kernel.hpp")
prop("T05", "Ports are found by their names, once each, with the type they were given",
     """A port container holds exactly the ports that were added: each is found under its name and under no other, iteration visits each once, the count is right, and a port carries the
     element type with which it was added. Traffic written to a named port leaves by the link of that name.""",
     "inputs programs histories", "all sets of port names, orders of adding and lookups",
     "The tests use ports named 0 and 1.",
     "src/port.cpp raftinc/port.hpp src/portiterator.cpp raftinc/portiterator.hpp src/port_info.cpp raftinc/port_info.hpp raftinc/portmap_t.hpp", "addPort, getPortInfoFor @ raftinc/port.hpp", "iterator @ src/portiterator.cpp")
prop("T06", "Traversals and dot output show exactly the graph",
     """A breadth-first traversal from the sources visits each reachable kernel once and each link once and terminates on every graph; the dot output names each kernel once and has one edge for each link, between the
     right kernels.""",
     "programs", "all graphs, with shared successors, multiple links between the same kernels, and many sources",
     "No test looks at a traversal or at the dot output.",
     "src/graphtools.cpp raftinc/graphtools.hpp src/makedot.cpp raftinc/makedot.hpp src/kernel_all.cpp", "BFS @ src/graphtools.cpp", "make_dot @ src/makedot.cpp")
prop("K01", "Split and join kernels conserve what passes through them",
     """A split kernel sends every element that it takes to exactly one of its outputs, and a join kernel sends every element that it takes to its output; nothing is lost, duplicated or altered, the order within each
     path is kept, and signals stay with their elements. It works for any number of ports, a join for any element type and a split for
     every element type that fits a cache line.""",
     "schedules inputs configurations", "all numbers of ports, rates of their partners and buffer sizes, all element types that the kernel takes",
     "No stable test runs a split or a join kernel.",
     "raftinc/split.tcc raftinc/join.tcc raftinc/splitmethod.hpp src/roundrobin.cpp src/leastusedfirst.cpp src/parallelk.cpp raftinc/parallelk.hpp", "send and get @ raftinc/splitmethod.hpp", "select_fifo @ src/roundrobin.cpp")
prop("K02", "Adapter kernels move exactly their range, in order",
     """Reading from an iterator range feeds exactly that range, writing to an iterator stores every element in order, printing writes every element in order followed by its delimiter, as does a copy or clone of a printing kernel on as many ports, and a lambda kernel is given the
     ports that were declared for it. This holds for any container or single-pass range and number of elements, none included, and any element type (for the
     writing to an iterator: any that fits a cache line).""",
     "inputs schedules", "all container types, lengths and contents, numbers of input ports",
     "The tests print a few numbers to the terminal, unchecked.",
     "raftinc/readeach.tcc raftinc/writeeach.tcc raftinc/print.tcc raftinc/lambdak.tcc", "run @ raftinc/readeach.tcc", "run @ raftinc/writeeach.tcc", "run @ raftinc/print.tcc", "add_ports @ raftinc/lambdak.tcc")
prop("K03", "The file reader covers every byte of the file",
     """The chunks that the file reader sends cover the whole file: each holds exactly the bytes found at the position that it states, with its length and a running index, consecutive chunks overlap by exactly the number of bytes asked
     for (fewer than a chunk holds), and the last, over several ports only chunks among the last one of each port, is marked as the end. An empty file gives one empty chunk.""",
     "inputs configurations", "all file lengths and contents, chunk sizes, overlaps shorter than a chunk, numbers of output ports",
     "No stable test reads a file.",
     "raftinc/fileio.tcc raftinc/filechunk.tcc raftinc/chunkiterator.tcc", "run @ raftinc/fileio.tcc", "filechunk @ raftinc/filechunk.tcc")
prop("K04", "Search reports every occurrence at its position, and nothing else",
     """The search kernel reports, for each chunk it is given, exactly the positions in the file at which the term occurs in that chunk, overlapping occurrences included, in increasing order and with the right end.
     With the chunks overlapping by the length of the term less one, the reports over all chunks are all occurrences in the file, each once.""",
     "inputs configurations", "all texts, terms and chunk sizes",
     "No stable test searches.",
     "raftinc/search.tcc raftinc/chunkiterator.tcc raftinc/filechunk.tcc raftinc/fileio.tcc", "run @ raftinc/search.tcc", "chunk_iterator @ raftinc/chunkiterator.tcc")
prop("K05", "Arithmetic, random and selection helpers compute what they say",
     """The sum and the product over ports take exactly one element from each port and give the arithmetic result; the random source sends exactly the number of variates asked for, all within its
     distribution, and so does a copy or clone of it; selecting an input gives a port that has data, with its count, whenever one of them has, and never takes anything. The cosine transform kernel sends, for each 8x8 matrix that it takes, its
     two-dimensional cosine transform to within rounding.""",
     "inputs schedules", "all port counts, element types, values and fill levels",
     "Two tests compute one sum each.",
     "raftinc/raftmath.tcc raftinc/random.tcc raftinc/select.tcc raftinc/common.hpp raftinc/dct.tcc", "sum, mult @ raftinc/raftmath.tcc", "run @ raftinc/random.tcc", "in @ raftinc/select.tcc", "run @ raftinc/dct.tcc")
prop("R05", "A run uses the policies it is given, and runs kernels that are added to it",
     """A run gives the partitioner every kernel of the graph before it makes anything else; makes the allocator, and neither makes nor starts the scheduler, nor runs a kernel, until the allocator says that it is ready;
     initialises the scheduler before it starts it; and tells allocator and monitor to exit only after the scheduler came back, returning when they have. A kernel handed to the scheduler while the run goes on, by the monitor or by
     another kernel, at any moment, is run exactly like one that was there at the start: by one thread at a time, until it ends, not after that, and the run returns only after it has ended. A scheduler built of the steps that
     the base class offers, which runs the kernels in any order on any number of threads, gives the same results.""",
     "schedules programs configurations", "all graphs, all moments and orders of adding kernels, all policies that keep their contract",
     "Tests only use the policies that come along and never add a kernel.",
     "raftinc/map.hpp src/schedule.cpp raftinc/schedule.hpp src/simpleschedule.cpp raftinc/simpleschedule.hpp raftinc/kernelkeeper.tcc src/allocate.cpp raftinc/allocate.hpp", "exe @ raftinc/map.hpp", "scheduleKernel, kernelRun, setPtrSets @ src/schedule.cpp", "start, handleSchedule @ src/simpleschedule.cpp")
prop("R06", "Graphs that run at the same time do not affect each other",
     """Several graphs in one process, run by different threads at the same time or by one thread one after the other, each compute what they compute alone: every stream, kernel, buffer size, core assignment and exit belongs to one run, none is shared,
     mixed up, waited for or left behind for another, whenever the runs start and end. (Kernels are made by one thread at a time.)""",
     "schedules programs configurations", "all sets of graphs, all overlaps in time of their runs, all configurations of each, all kernels that the library brings along",
     "Each test runs one graph and ends.",
     "raftinc/map.hpp src/graphtools.cpp src/allocate.cpp src/dynalloc.cpp src/simpleschedule.cpp src/schedule.cpp src/basicparallel.cpp src/mapbase.cpp", "exe @ raftinc/map.hpp", "traversals @ src/graphtools.cpp", "run @ src/dynalloc.cpp", "start @ src/simpleschedule.cpp", "start @ src/basicparallel.cpp")
prop("U01", "Ring positions stay in range and tell full from empty",
     """A ring position always lies within its buffer, advances by the number of steps asked for modulo the capacity, and counts its wraps, so that the distance between write and read position is the number of elements queued,
     from 0 to the capacity, after any number of operations. A position that is moved to a larger buffer keeps that distance.""",
     "histories inputs", "all capacities, step sizes and sequences of steps, wrap counters included",
     "Tests do not reach the wrap edges systematically.",
     "src/pointer.cpp raftinc/pointer.hpp", "inc, incBy, val, wrapIndicator @ src/pointer.cpp")
prop("U02", "Kernel groups and exceptions carry what was put into them",
     """A group of kernels gives the kernels put into it in that order and with their number, the endpoint lists of an expression likewise, and each exception of the library is a standard exception of its own type whose message is the
     one with which it was raised, also after copying. A modifier bound to kernels holds for each of them and for no other.""",
     "inputs", "all group sizes up to large ones, all messages",
     "Tests build groups of two and never read a message.",
     "raftinc/kset.tcc src/kernel_pair_t.cpp raftinc/kernel_pair_t.hpp raftinc/raftexception.hpp src/raftexception.cpp raftinc/portexception.hpp raftinc/kernelexception.hpp", "kset @ raftinc/kset.tcc", "RaftException @ src/raftexception.cpp")
prop("U03", "Ranges, units and running statistics are numerically right",
     """The range helper gives exactly the values from the first end by whole steps, up or down, as far as the last end, exact for every integer type up to its limits; the byte-size units have the factors 1024 to
     the power of their rank; and the streaming mean and standard deviation agree, up to the rounding of the sample type, with the definition over all samples since the last reset.""",
     "inputs", "all end points, lengths and types; all sample sequences",
     "Tests call these once with fixed values.",
     "raftinc/utility.hpp raftinc/units.hpp raftinc/streamingstat.tcc", "range @ raftinc/utility.hpp", "update @ raftinc/streamingstat.tcc")
prop("U04", "Partitioning assigns every kernel to a core that exists",
     """The partitioner gives every kernel of the graph exactly one core, in the range of the cores of the machine (or none, for the partitioner that does not pin), over any graph, and the affinity does not change
     what the graph computes. In the partitioning build the graph library is given every kernel and every link once, in both directions, and each kernel is put where its vertex was.""",
     "programs configurations", "all graphs and numbers of cores",
     "Assignments are not visible to the tests.",
     "src/partition_basic.cpp src/partition_dummy.cpp src/partition_scotch.cpp raftinc/graph.tcc raftinc/partition_basic.hpp src/kernel.cpp", "partition @ src/partition_basic.cpp", "run_scotch @ src/partition_scotch.cpp", "getScotchTables @ raftinc/graph.tcc")
prop("U05", "Stream statistics count what passed, and nothing else",
     """The counters of a stream tell the number of elements that its writer sent and that its reader popped since they were last read out, and whether the writer had to wait meanwhile; reading
     them out resets them, calls that move nothing do not count, and a resize keeps them. Merging counters adds up what was moved without waiting.""",
     "histories schedules", "all call sequences, with resizes and closes between them",
     "No test reads the counters.",
     "raftinc/blocked.hpp src/blocked.cpp raftinc/ringbufferheap.tcc raftinc/ringbufferheap_abstract.tcc raftinc/datamanager.tcc", "Blocked @ src/blocked.cpp", "get_zero_read_stats, get_zero_write_stats @ raftinc/ringbufferheap_abstract.tcc")
prop("U06", "A system signal runs exactly the handler registered for it",
     """A table of signal handlers calls, for each signal, the handler that was registered last for that very signal, with the stream, the kernel and the data it was given, and
     returns its answer; a signal without a handler raises an exception and calls nothing. Checking a kernel's inputs for system signals takes each system signal that is in front, calls its
     handler once, asks to stop exactly when one of the handlers does, and leaves all other elements and signals in place. The handler for quit, the only one in a scheduler's own table, closes the stream it came on and asks to stop; closing a
     kernel's outputs closes all of them and nothing else.""",
     "histories inputs", "all registrations and calls, all kernels and contents of their inputs",
     "The run-time system's handler tables are never exercised by a test.",
     "src/systemsignalhandler.cpp src/schedule.cpp src/signal.cpp raftinc/systemsignalhandler.hpp raftinc/schedule.hpp",
     "SystemSignalHandler @ src/systemsignalhandler.cpp", "checkSystemSignal, quitHandler, invalidateOutputPorts @ src/schedule.cpp")
prop("M01", "Legal use is free of undefined behaviour, use of freed memory, and leaks",
     """Whatever graph is built and run, with whatever legal calls, the library reads and writes only live memory within its bounds, executes nothing undefined, and at the end has released what it allocated. This holds in every build of it,
     optimised or not.""",
     "programs schedules inputs histories", "all legal programs over the public interface, including the programs of the test suite and the examples",
     "The tests are run without any sanitizer.",
     "raftinc src", "all of the library @ raftinc")
prop("M02", "The threads of a run never race on memory, and what is sent is seen whole",
     """Two threads of a run never access the same memory, one of them writing, unless something orders the two accesses: the positions, closed flag and access flags of a stream, a lock, the start or end of a thread, or a flag of the
     run-time system. So whatever a kernel wrote before it sent an element is visible to the kernel that receives it, and the run-time's own structures (list of threads, sets of kernels, ports, streams that are being made or
     resized, lists of what a kernel has looked at) are never read while another thread changes them, nor used by a thread after another released them. Only the counters that are sampled while they change, for the growth of streams, are approximate.""",
     "schedules histories programs", "all interleavings of all threads of a run: kernels, scheduler, allocator and monitor, including graphs that run at the same time",
     "A race shows as a wrong result only in rare schedules and on other machines; no test looks for one.",
     "raftinc src", "threads of a run @ raftinc/map.hpp", "thread list @ src/simpleschedule.cpp", "kernel sets @ raftinc/kernelkeeper.tcc", "making and growing of streams @ src/dynalloc.cpp", "access flags of a stream @ raftinc/datamanager.tcc", "positions @ raftinc/pointer.hpp")

NA = {}
HOOKS = dict(guard="RAFT_VERIF_SHARED", enable="the build for ThreadSanitizer compiles with -DRAFT_VERIF_SHARED -include harness/shared.hpp", source_commits=["b42fcc6386fe109d23253b06a0327ba9f23dd139"])
NOTE = "Says that no monitor saw a violation in the executions of this run (counted in the evidence file); nothing about executions that it did not produce. Trusts the monitors in harness/, the compiler and its sanitizers."
for p in P:
    if p["id"] not in CHECKS:
        NA[p["id"]] = "its check is not built yet"
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=HOOKS, checks=[], not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
for p in P:
    c = CHECKS.get(p["id"])
    if not c:
        continue
    vs = sorted({v for j in c["jobs"] for v in j["variants"]})
    san = {"asan": "AddressSanitizer and LeakSanitizer", "ubsan": "AddressSanitizer, LeakSanitizer and UBSan", "chaos": "injected delays", "chaosasan": "AddressSanitizer with injected delays", "plain": "optimised build", "scotch": "AddressSanitizer, partitioning build with a stand-in for Scotch", "vg": "valgrind memcheck", "tsan": "ThreadSanitizer"}
    m["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"],
                            technique="runtime monitoring: " + c.get("tech", "seeded workloads on the real library, online monitors against a reference") + " (" + "; ".join(san[v] for v in vs) + ")",
                            level=LEVEL, level_note=NOTE))
with open(TOP + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
with open(TOP + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(m["checks"]), "checks")
