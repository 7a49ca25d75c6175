def M(*a): return [{'name': a[i], 'where': a[i + 1]} for i in range(0, len(a), 2)]
def ST(*a): return [{'name': a[i], 'meaning': a[i + 1], 'where': a[i + 2]} for i in range(0, len(a), 3)]

p('P01', 'Events fire at exactly the requested time, in time/phase/group order',
  'An event scheduled for a relative time of d runs exactly once, when simulated time equals the scheduling time plus d, unless it is cancelled first. Events run in non-decreasing time; within one time they run in scheduling-phase order and, within a phase, in dependency-group order.',
  ['histories', 'schedules'], 'every sequence of scheduling, cancelling, restarting and running requests, every relative time, phase and dependency group',
  'The unit tests run a handful of fixed schedules; which tick and slot an event lands in depends on the whole pending set and the current time, which is unbounded.',
  ['kernel/Scheduler.hpp', 'sparta/src/Scheduler.cpp', 'events/Scheduleable.hpp'],
  M('tick queue insertion and lookup', 'sparta/src/Scheduler.cpp scheduleEvent/determineTickQuantum_', 'run loop', 'sparta/src/Scheduler.cpp run'),
  ST('pending tick list', 'future times with their pending events, strictly increasing', 'Scheduler'),
  ['event handlers', 'Scheduler::getCurrentTick'])
p('P02', 'Simulated time is monotone and run requests advance it exactly as asked',
  'Simulated time never decreases while running and elapsed time equals the sum of the completed run intervals. A run request for n units processes precisely the events due in that interval and leaves every later event pending.',
  ['histories'], 'every history of run requests with every interval length and every pending event population',
  'Tests use a few run lengths; off-by-one boundaries between two run requests depend on arbitrary splits of the same interval.',
  ['kernel/Scheduler.hpp', 'sparta/src/Scheduler.cpp'], M('run loop', 'sparta/src/Scheduler.cpp run'), ST('current tick', 'simulated time', 'Scheduler'),
  ['Scheduler::getCurrentTick', 'Scheduler::getElapsedTicks', 'event handlers'])
p('P03', 'Payload and unique events are delivered once, at their time, with their data',
  'Each prepared payload is handed to its handler exactly once, with the data it was prepared with, at the time it was scheduled for, unless cancelled. A unique event runs at most once per time instant no matter how often it is scheduled for it, and at least once if it was scheduled and not cancelled.',
  ['histories'], 'every interleaving of prepare, schedule, cancel (all forms) and delivery',
  'Tests schedule short fixed patterns; object recycling and de-duplication state depend on the whole history.',
  ['events/PhasedPayloadEvent.hpp', 'events/PhasedUniqueEvent.hpp', 'events/PhasedSingleCycleUniqueEvent.hpp', 'events/Scheduleable.hpp'],
  M('payload proxy pool', 'events/PhasedPayloadEvent.hpp', 'last-scheduled de-duplication', 'events/PhasedUniqueEvent.hpp', 'next-cycle de-duplication', 'events/PhasedSingleCycleUniqueEvent.hpp'),
  ST('in-flight proxies', 'prepared, undelivered payloads', 'PhasedPayloadEvent'), ['event handlers', 'isScheduled', 'getNumOutstandingEvents'])
p('P04', 'Clock conversions agree with the clock period and crossings are never early',
  'Converting cycles to time and back is exact for every clock period, and a clock edge is reported exactly at multiples of the period. A clock-domain crossing lands on a destination clock edge that is never earlier than the source time plus the requested delay, and is the first such edge.',
  ['inputs', 'configurations'], 'all clock periods, cycle counts, current times and delays within range',
  'Tests use a few period pairs; alignment depends on arbitrary pairs of periods and times.',
  ['simulation/Clock.hpp', 'sparta/src/Clock.cpp'], M('period arithmetic', 'simulation/Clock.hpp', 'clock crossing computation', 'sparta/src/Clock.cpp'),
  ST('period', 'time units per cycle', 'Clock'), ['Clock::getCycle', 'Clock::getTick', 'Clock::isPosedge', 'calculateClockCrossingDelay'])
p('P05', 'A sent datum or signal reaches every bound receiver after exactly its delay',
  'Sending on an output port delivers the sent value once to every bound input port, exactly the send delay plus that input port\'s delay later in receiver cycles, whatever the delay. No bound port is skipped and no value is altered.',
  ['inputs', 'configurations'], 'all send delays, port delays, values and numbers of bound ports',
  'Tests use tiny delays and one or two bound ports.',
  ['ports/DataPort.hpp', 'ports/SignalPort.hpp', 'ports/Port.hpp', 'utils/DataContainer.hpp'], M('send', 'ports/DataPort.hpp send_', 'send', 'ports/SignalPort.hpp send_'),
  ST('bound ports', 'receivers of an output port', 'DataOutPort'), ['registered consumer handlers'])
p('P06', 'Cross-domain ports deliver in order, on receiver edges, never early',
  'Data sent through a clock-crossing port arrives on an edge of the receiver clock, not before the send time plus the send and receive delays, and two data sent in order never arrive in the same receiver cycle or out of order.',
  ['histories', 'configurations'], 'all sender and receiver periods, delays and send histories',
  'Tests use fixed period ratios.', ['ports/SyncPort.hpp', 'sparta/src/Clock.cpp'], M('arrival computation', 'ports/SyncPort.hpp computeSendToReceiveTickDelay_'),
  ST('previous arrival', 'time of the latest arrival', 'SyncInPort'), ['registered consumer handlers', 'computeNextAvailableCycleForSend'])
p('P07', 'The queue is a bounded FIFO with stable, self-invalidating iterators',
  'A queue always holds exactly the pushed and not yet removed elements in push order, never more than its capacity, and rejects a push exactly when full and a pop exactly when empty. An iterator is valid exactly while its own element is in the queue and then yields that element.',
  ['histories'], 'every sequence of push, pop, pop-back, clear and iterator use, for every capacity, including wrap-around and very long runs',
  'Tests push a few elements into small queues; wrap-around position and element identity depend on the full history.',
  ['resources/Queue.hpp'], M('circular indices', 'resources/Queue.hpp', 'element identity stamps', 'resources/Queue.hpp'),
  ST('head/tail', 'oldest element and next free slot', 'Queue'), ['size', 'read', 'front', 'back', 'iterators'])
p('P08', 'The buffer is a compacting sequence: order kept across insert and erase',
  'A buffer always holds exactly the inserted and not yet erased elements; appending adds at the end, inserting places the element at the given position and shifts later ones back, erasing closes the gap, and all other elements keep their relative order and values. Occupancy never exceeds capacity (a growing buffer extends it without changing contents or order). Without growth, an iterator stays valid and keeps yielding its element as long as that element is present, and erasing the element makes it invalid.',
  ['histories'], 'every sequence of append, insert, erase and clear at every position, for every capacity and in growing mode',
  'Tests use buffers of about ten entries and fixed scripts.', ['resources/Buffer.hpp'], M('position indirection', 'resources/Buffer.hpp buffer_map_'),
  ST('position map', 'element slot of every position', 'Buffer'), ['size', 'read', 'access', 'iterators', 'capacity'])
p('P09', 'The array keeps each slot\'s datum and an exact age order',
  'Writing a free slot stores the datum there and makes it the youngest; erasing a slot removes only it; all other slots keep their data and their relative age order. Oldest/youngest queries and age-ordered iteration always agree with the order of writes.',
  ['histories'], 'every sequence of write, append, erase and clear at every index',
  'Tests use short scripts on small arrays.', ['resources/Array.hpp', 'resources/FrontArray.hpp'], M('age list', 'resources/Array.hpp', 'valid flags', 'resources/Array.hpp'),
  ST('age list', 'slots from youngest to oldest', 'Array'), ['read', 'isValid', 'getOldestIndex', 'abegin'])
p('P10', 'The circular buffer keeps a sliding window of the newest entries, in order',
  'A circular buffer of capacity n holds its entries in insertion order; pushing onto a full one discards exactly the oldest, inserting places the element before the given one and is rejected when full, erasing removes just that element. An iterator yields its element and stays valid exactly until its element is discarded or anything is erased or inserted.',
  ['histories'], 'every sequence of push, insert, erase and iterator use, for every capacity, including very long runs',
  'Tests push a few dozen entries.', ['resources/CircularBuffer.hpp'], M('window indices', 'resources/CircularBuffer.hpp'), ST('window', 'index range of live elements', 'CircularBuffer'),
  ['size', 'iterators', 'push_back'])
p('P11', 'Pipe data advance one stage per update and leave after the last',
  'Every update moves each datum in a pipe to the next stage, appended data enter the first stage, data in the last stage leave, and every other cell is unchanged; the occupancy always equals the number of valid stages. Flushing or invalidating a stage affects only that stage, and a rejected operation changes nothing.',
  ['histories'], 'every sequence of append, write, invalidate, flush and update for every number of stages',
  'Tests script a few short pipes.', ['resources/Pipe.hpp', 'resources/Pipeline.hpp'], M('stage rotation', 'resources/Pipe.hpp shiftPipe_'), ST('valid count', 'number of occupied stages', 'Pipe'),
  ['numValid', 'isValid', 'read', 'iterators'])
p('P12', 'Ordered lists and priority queues return elements in the specified order',
  'A priority queue always yields its elements in comparator order, equal elements in insertion order, and erasing removes exactly the named element. The fixed-size linked list behaves as a sequence: pushing and inserting place elements at the given position, erasing removes just that element, and other elements keep value and order.',
  ['histories'], 'every sequence of push, insert, erase and pop with every element order and every size',
  'Tests push a few values.', ['resources/PriorityQueue.hpp', 'utils/FastList.hpp'], M('ordered insertion', 'resources/PriorityQueue.hpp', 'node free list', 'utils/FastList.hpp'),
  ST('free list', 'unused nodes', 'FastList'), ['top', 'pop', 'iterators', 'size'])
p('P13', 'State written for the next cycle is invisible until then and never lost',
  'A value written to double-buffered shared data is not readable as present state before the update at the end of that cycle and is the present state afterwards, and with no write the present state is unchanged (or cleared where so configured).',
  ['histories'], 'every interleaving of reads, writes and updates across cycles',
  'Tests try a few writes.', ['resources/SharedData.hpp'], M('present/next swap', 'resources/SharedData.hpp'), ST('present index', 'which copy is present', 'SharedData'), ['readPS', 'readNS', 'isValidPS', 'isValidNS'])
p('P14', 'Shared pointers free their object exactly once, when the last owner goes',
  'An object owned by reference-counted pointers is alive while at least one owner exists and is released exactly once, when the last owner is destroyed, reset or reassigned; the reported use count always equals the number of owners. A weak reference never keeps the object alive and yields an owner exactly while it is alive, and pooled allocators never hand out storage in use.',
  ['histories'], 'every sequence of copy, move, assign, self-assign, reset, lock and destroy over any number of pointers',
  'Tests try short ownership scripts; leaks and double frees depend on the aliasing history.', ['utils/SpartaSharedPointer.hpp', 'utils/SpartaSharedPointerAllocator.hpp'],
  M('reference count', 'utils/SpartaSharedPointer.hpp', 'allocator pool', 'utils/SpartaSharedPointerAllocator.hpp'), ST('reference count', 'owners of an object', 'RefCount'),
  ['use_count', 'object destructor', 'lock', 'expired'])
p('P16', 'Counters and histograms account for every sample exactly once',
  'A counter reports exactly the sum of its increments, and a histogram puts every recorded sample in exactly the bin (or under/overflow) whose range contains it, so that bin totals always add up to the number of samples. Cycle-weighted histograms attribute every elapsed cycle to the value held during it.',
  ['histories', 'inputs'], 'every sequence of samples, increments and cycle counts, every bin layout',
  'Tests feed a few samples.', ['statistics/Counter.hpp', 'statistics/Histogram.hpp', 'statistics/CycleHistogram.hpp', 'statistics/BasicHistogram.hpp'],
  M('bin selection', 'statistics/Histogram.hpp addValue', 'delta accounting', 'statistics/CycleHistogram.hpp'), ST('bins', 'sample counts', 'HistogramBase'), ['getCounter', 'bins'])
p('P17', 'Byte order conversion, bit sets and bit fields are exact',
  'Converting a value between byte orders and back yields the value, and reading in either order yields the bytes mathematically implied. Bit arrays and register bit values behave as the unsigned integer their bytes denote: shifts (by any amount, zero-filling), complement, and bitwise operations with an operand of the same size equal the integer operation truncated to the size, copies and operands are never affected, none() is true exactly when no bit is set, and counting bits counts every set bit once.',
  ['inputs'], 'all values, sizes, offsets and shift amounts',
  'Tests use a few constants.', ['utils/ByteOrder.hpp', 'utils/BitArray.hpp', 'functional/RegisterBits.hpp', 'utils/Bits.hpp'],
  M('byte swap', 'utils/ByteOrder.hpp', 'word-wise shift', 'utils/BitArray.hpp'), [], ['operators', 'getValue'])
p('P18', 'Arithmetic helpers compute the mathematical result',
  'Greatest common divisor, least common multiple, integer logarithms, power-of-two tests and rounding, bit and alignment masks and checked integer power return the exact mathematical result for every operand for which it is representable (checked power raises an error when it is not, the mask of a size that is no power of two is rejected), and Rational sums, absolute differences, products, quotients, inverses and comparisons are exact and in lowest terms whenever the terms over the common denominator (or the plain products) are representable.',
  ['inputs'], 'all operands',
  'Tests use a few small operands.', ['utils/MathUtils.hpp', 'utils/Rational.hpp', 'utils/Utils.hpp'], M('Euclid loop', 'utils/MathUtils.hpp gcd', 'normalisation', 'utils/Rational.hpp'), [], ['return values'])
p('P19', 'Registers and data views read back what was written, nothing else changes',
  'A write to a register, register field or data view stores exactly the writable bits of the value at exactly its own bytes, a subsequent read returns it, and every other byte of the underlying storage is unchanged; accesses outside the storage are rejected.',
  ['inputs', 'histories'], 'all widths, offsets, indices, write masks, values and access orders',
  'Tests use a few registers and values.', ['functional/Register.hpp', 'functional/DataView.hpp', 'functional/ArchData.hpp', 'functional/RegisterBits.hpp'],
  M('line read and write', 'functional/ArchData.hpp', 'view access', 'functional/DataView.hpp', 'masked write', 'functional/Register.hpp'), ST('lines', 'backing bytes', 'ArchData'), ['read', 'write', 'peek', 'poke'])
p('P20', 'Memory accesses are routed to the mapped bytes and nothing else',
  'An access to a memory map reaches exactly the destination whose mapped range contains it, at the corresponding address, and is rejected when no single range contains it; overlapping mappings are refused. An access crossing a block boundary or outside the access windows is refused and touches nothing.',
  ['inputs', 'configurations'], 'every set of mappings, every order of adding them, every address and size',
  'Tests use a handful of mappings.', ['memory/SimpleMemoryMap.hpp', 'memory/BlockingMemoryIF.hpp', 'memory/DebugMemoryIF.hpp', 'memory/MemoryObject.hpp'],
  M('mapping tree', 'memory/SimpleMemoryMap.hpp', 'span and window checks', 'memory/DebugMemoryIF.hpp'), ST('mapping tree', 'disjoint ranges', 'SimpleMemoryMap'), ['findMapping', 'mapAddress', 'tryRead', 'tryWrite'])
p('P21', 'Loading a checkpoint restores exactly the checkpointed state',
  'After loading a checkpoint every register and memory byte has exactly the value it had when the checkpoint was taken, whatever was written, checkpointed, loaded or deleted in between, and deleting a checkpoint never changes what the remaining ones restore.',
  ['histories'], 'every sequence of writes, checkpoint creation, load and deletion',
  'Tests use short chains.', ['serialization/checkpoint/FastCheckpointer.hpp', 'serialization/checkpoint/DeltaCheckpoint.hpp', 'serialization/checkpoint/Checkpointer.hpp', 'functional/ArchData.hpp'],
  M('delta chains', 'serialization/checkpoint/DeltaCheckpoint.hpp', 'dirty lines', 'functional/ArchData.hpp'), ST('chain', 'delta ancestry', 'FastCheckpointer'), ['loadCheckpoint', 'memory contents'])
p('P22', 'Cache lookup finds a line iff it was filled, victims follow the policy',
  'With a stride equal to the line size and power-of-two geometry, address decoding splits every address into tag, set and offset without loss; a lookup hits exactly when the set holds a valid line with that tag, and filling a line changes only the chosen way. The replacement order is always a permutation of the ways: touching a way makes it most recent, and the victim is the least recently touched (or the way the tree policy points to). A blocking cache reloads the missing block into the victim, casts out a dirty victim first and reaches the next level exactly when its write mode requires it.',
  ['inputs', 'histories'], 'all addresses, geometries and access histories',
  'Tests use one small cache.', ['sparta/cache/DefaultAddrDecoder.hpp', 'sparta/cache/BasicCacheSet.hpp', 'sparta/cache/LRUReplacement.hpp', 'sparta/cache/TreePLRUReplacement.hpp', 'sparta/cache/SimpleCache2.hpp', 'sparta/cache/SimpleCache.hpp', 'sparta/cache/LineData.hpp', 'sparta/cache/Cache.hpp'],
  M('address split', 'sparta/cache/DefaultAddrDecoder.hpp', 'recency order', 'sparta/cache/LRUReplacement.hpp', 'direction bits', 'sparta/cache/TreePLRUReplacement.hpp'), ST('recency', 'way order', 'LRUReplacement'), ['peekLine', 'getLRUWay', 'touchMRU'])
p('P23', 'Scoreboard readiness is exact and callbacks fire exactly once',
  'A register set is reported ready exactly when every one of its registers has been set ready since it was last cleared; a registered readiness callback is invoked exactly once, when its registers become ready, and never after it was cancelled.',
  ['histories'], 'every sequence of set, clear, register and cancel over all register masks and latencies',
  'Tests use a fixed matrix and short scripts.', ['resources/Scoreboard.hpp', 'sparta/src/Scoreboard.cpp'], M('ready masks', 'sparta/src/Scoreboard.cpp'), ST('ready mask', 'ready registers', 'ScoreboardView'), ['isSet', 'callbacks'])
p('P24', 'Dependency ordering is a valid topological order and cycles are rejected',
  'Finalising the dependency graph gives every event a group such that each declared producer is in a strictly earlier group than its consumers, and a cyclic set of dependencies is always rejected.',
  ['configurations'], 'every finite set of precedence declarations',
  'Tests build a few graphs.', ['kernel/DAG.hpp', 'kernel/Vertex.hpp', 'sparta/src/DAG.cpp', 'sparta/src/Vertex.cpp'], M('topological sort', 'sparta/src/DAG.cpp'), ST('group id', 'depth of vertex', 'Vertex'), ['getGroupID', 'exceptions'])
p('P25', 'Pooled objects are never handed out twice while in use',
  'The object pool hands out storage not in use by any live object, returns of an object make exactly it available again, and the allocated/free counts always add up.',
  ['histories'], 'every sequence of create and free', 'Tests allocate a few objects.', ['kernel/ObjectAllocator.hpp'], M('free list', 'kernel/ObjectAllocator.hpp'), ST('free list', 'unused blocks', 'ObjectAllocator'), ['create', 'free'])
p('P26', 'Parameter values are validated and configuration text round-trips',
  'A parameter accepts exactly the values its type and validators allow, reading it returns the last accepted value, and the textual form of any value parses back to that value.',
  ['inputs'], 'all values and texts', 'Tests use a few strings.', ['simulation/Parameter.hpp', 'utils/SmartLexicalCast.hpp', 'sparta/src/Parameter.cpp'], M('lexical cast', 'utils/SmartLexicalCast.hpp'), [], ['Parameter::getValue', 'setValueFromString'])
p('P27', 'Work posted from other threads is run exactly once in simulation order',
  'An event posted asynchronously from another thread is run exactly once by the simulation thread, at a time not before the posting, and no posted event is lost.',
  ['schedules'], 'every interleaving of posting threads with the simulation thread', 'Tests race a few posts.', ['kernel/Scheduler.hpp', 'sparta/src/Scheduler.cpp', 'events/AsyncEvent.hpp'], M('async queue', 'sparta/src/Scheduler.cpp'), [], ['event handlers'])
p('P28', 'Reports show the statistic values at the time of the report',
  'Every statistic in a generated report has the value its counters and expressions have at report time relative to the start of the report window, in every output format.',
  ['histories', 'configurations'], 'every report definition, window and format', 'Tests compare a few golden reports.', ['report/Report.hpp', 'statistics/StatisticInstance.hpp', 'statistics/Expression.hpp'], M('statistic evaluation', 'statistics/StatisticInstance.hpp'), [], ['report files'])
p('P29', 'Tree paths and pattern searches find exactly the matching nodes',
  'Looking up a node by its full path yields that node, a path names at most one node, and a pattern search returns every matching node exactly once.',
  ['configurations'], 'every tree shape and pattern', 'Tests use one small tree.', ['simulation/TreeNode.hpp', 'sparta/src/TreeNode.cpp'], M('name matching', 'sparta/src/TreeNode.cpp'), [], ['TreeNode::getChild', 'findChildren'])
