GEN = 'Every listed obligation is discharged for all inputs and all pre-states satisfying the stated representation invariant; the VC generator, clang front end and SMT solvers are trusted. '
CLAIMS = {
 'P01': GEN + 'Scheduler::determineTickQuantum_ over any list of pending quanta (one per tick, sorted), scheduleEvent (refusal, placement, unique de-duplication, continuing horizon), cancelEvent in both forms, isScheduled in both forms, the complete firing loop of run for any quanta, groups and events (each event once, in time, group and insertion order). Handlers are an arbitrary call that may not change the watched event. Restart, clearEvents, phases against dependency groups, and events scheduled by handlers inside the run loop only by the bounded oracle.',
 'P02': GEN + 'Scheduler::run: firing loop (time never goes back, equals the quantum being fired, stop at the limit), run limit event, next event, watchdog. Elapsed-tick bookkeeping, exact runs and restarts only by the bounded oracle.',
 'P03': GEN + 'PhasedPayloadEvent<uint64_t> over any in-flight list, free list and pool: preparePayload, schedule, delivery (exactly once, right payload, payload alive during the handler), every cancel/confirm form, handle reference counts, proxy growth; PhasedUniqueEvent and PhasedSingleCycleUniqueEvent: one delivery per time, cancel, repeated scheduling. Handlers that schedule or cancel from inside deliveries, getHandleIf and element types with destructors only by the bounded oracle.',
 'P04': GEN + 'Clock conversions, elapsed cycles, edge test, calculateClockCrossingDelay and calculateReverseClockCrossingDelay for every period, time and delay (no 64-bit wrap), with products and quotients of unknowns through Lean-checked lemmas. Periods computed by ClockManager::normalize and frequencies only by the bounded oracle.',
 'P05': GEN + 'DataOutPort<uint64_t>::send/cancel/cancelIf/isDriven and SignalOutPort::send over any number of bound ports, DataInPort and SignalInPort send_ (delay, phase, immediate delivery, refusal), reception, DataContainer. Binding, precedence set-up and other data types only by the bounded oracle.',
 'P06': GEN + 'SyncInPort<uint64_t>: arrival computation, send_ (edge, never early, order, sliding, refusal, in-flight count), forwardData_ (delivery or retry), ready latch, for any periods, times and delays below 2^62. SyncOutPort (next available cycle, one send per cycle), integer-to-double delay conversion and the reverse computation only by the bounded oracle.',
 'P07': GEN + 'Queue<uint64_t>: construct, push, pop, pop_back, clear, read/access, iterators. Element destruction and other element types only by the bounded oracle.',
 'P08': GEN + 'Buffer<uint64_t> in fixed-size mode: push_back, insert and erase at every position (element order, values, iterators, free list, growth map), queries, iteration. Growing mode, clear, element lifetimes and reverse iteration only by the bounded oracle.',
 'P09': GEN + 'Array<uint64_t>, aged and not aged: write to a free or used slot, erase, ages, nth oldest/youngest, next oldest, comparisons, index-order, circular and age-order iteration, rejection, clear; FrontArray: first/last free slot, nth valid slot. std::list executed from its real header code, std::unordered_set as an abstract set. Element destructors only by the bounded oracle.',
 'P20': GEN + 'Access windows (construction, membership, no wrap), block spanning, tryRead/tryWrite/read/write, peek/poke block by block (every byte once), mapping arithmetic and overlap test, refusal of overlapping mappings, search in an arbitrary search tree of any size (exactly the mapping containing the address), rotations, routing of the map node. Placement of new mappings in the tree (addMapping, re-balancing loop) and memory objects only by the bounded oracle.',
 'P10': GEN + 'CircularBuffer<uint64_t>: push_back (free and full), insert, erase, iterators (validity for every window index), with std::list executed from its real header code. Reverse iterators and element lifetimes only by the bounded oracle.',
 'P11': GEN + 'Pipe<uint64_t>: update, append, write, invalidate, flush (single, all, conditional), shiftAppend, queries, iterators. Pipeline (stalls, stage handlers) and other element types only by the bounded oracle.',
'P12': GEN + 'FastList<uint64_t>: emplace, insert, emplace_front/back, erase, pop_front/back, iteration over an arbitrary node permutation and free list. PriorityQueue bounded and unbounded (std::list executed from its real header code): insert position, pop, top, erase, forceFront. Construction, clear, remove(data) and element lifetimes only by the bounded oracle.',
 'P13': GEN + 'SharedData<uint64_t>, automatic and manual: write, writePS, update (also repeated in one cycle), clear forms, read and access from an arbitrary state. That the scheduled update runs at the next cycle is P01/P03; other element types only by the bounded oracle.',
'P18': GEN + 'All functions named, for all operands; gcd through Lean-checked lemmas about the Euclid step and the contract of log2_lsb, Rational for an uninterpreted gcd/lcm (contracts of those). That safe_power throws only on overflow, rejection of non-powers by computeMask and conversions of Rational only by the bounded oracle; log2 of a power of two assumed exact.',
'P17': GEN + 'byte_swap/reorder for every type, count_1_bits by recurrence, BitArray bitwise operations and fill for every array size, conversions for sizes 1-16, shifts for 1-8 byte arrays (std::rotate executed from its real header code) by every amount, RegisterBits of 1-32 bytes: bitwise, shifts by every amount, copies and moves. Larger BitArray shifts and 64-byte register values only by the bounded oracle.',
'P14': GEN + 'Every operation of SpartaSharedPointer and SpartaWeakPointer from an arbitrary group of owners and observers (heap and pool), and the pool allocator (allocation from the free list, of a fresh block, exhausted, nested) with its real release functions.',
 'P22': GEN + 'Address decoding for all power-of-two geometries; lookup, victim, open way for sets of any number of ways and contents; routing, fill, touch, invalidate; LRU order for any number of ways in any order (std::list executed from its real header code); tree policy for every supported number of ways, all bits; blocking cache getLine/read/write/probe with castout, reload and next-level events. The policy is behind its interface (recorded calls) in set-level contracts. invalidateAll, non-temporal replacement and construction only by the bounded oracle.',
}
NA = {
}
