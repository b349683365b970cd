#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.
   P(id, title, statement, over, quantifier text, why tests cannot, files, mechanisms[, technique, level_note])"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, tech=None, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note, na=na))

TS = 'typestate analysis over the linked LLVM IR of every collector configuration (interprocedural summaries, correlated branches)'
TRUST = 'Trusts clang -O0 IR plus mem2reg/inlining as a faithful rendering of the source, the embedder model (engine/model), and the name of each field as identity of its role; decides the structural clauses listed in DESIGN.md, not run-time values.'

P('C01', 'The collector works only while every mutator is stopped',
  'Collection work (visiting roots, marking, moving, sweeping, flipping spaces) happens only after every registered mutator thread is either paused at a safepoint or inside a no-GC region, and none of them resumes touching the heap until the collector has finished and announced it. Every thread that makes the last outstanding mutator stop wakes the waiting collector, and the end of a collection wakes every paused thread.',
  ['schedules', 'histories', 'configurations'], 'every interleaving of any number of threads allocating, reaching safepoints, entering and leaving no-GC regions, joining and leaving the heap, in every multi-mutator collector configuration',
  'The multi-threaded tests run one schedule per run with one mutator lifecycle; a missed wakeup or an early start needs a specific interleaving at a counter update.',
  ['src/mmc.c', 'src/pcc.c'],
  [('counting mutators under the heap lock', 'src/mmc.c add_mutator/remove_mutator/pause_mutator_for_collection/deactivate_mutator'), ('wait for stop', 'src/mmc.c wait_for_mutators_to_stop'), ('same protocol', 'src/pcc.c')],
  TS)
P('C02', 'A thread hands over its private GC state before it counts as stopped',
  'Before a thread counts as paused, inactive or gone, and before a thread starts a collection itself, its private allocation block has been returned to the space, its privately buffered remembered edges have been published, and where stacks are scanned conservatively its stack extent and registers have been captured.',
  ['schedules', 'histories', 'configurations'], 'every path on which a thread may be stopped by a collection, in every configuration',
  'Losing the tail of a block or an edge buffer only shows if a collection strikes while that thread holds unpublished state; the tests hit a few such moments.',
  ['src/mmc.c', 'src/pcc.c', 'src/field-set.h', 'src/nofl-space.h', 'src/copy-space.h'],
  [('finish allocator and release writer before taking the heap lock', 'src/mmc.c trigger_collection, gc_safepoint_slow, deactivate_mutator, remove_mutator')],
  TS)
P('C03', 'Every root is visited in every collection',
  'Every collection visits all roots: for every registered thread its explicit roots and (when configured) its conservatively scanned stack and registers, the embedder\'s heap roots, the finalizer tables and, in a minor collection, the whole remembered set. No root category depends on anything but its own presence, and root processing is complete before tracing results are used.',
  ['histories', 'configurations', 'inputs'], 'every collection of every kind, any number of mutators and any combination of present or absent roots',
  'The benchmarks use one root set shape; a root category skipped in one kind of collection only matters for heaps where nothing else keeps the object alive.',
  ['src/mmc.c', 'src/pcc.c', 'src/semi.c', 'src/root.h', 'src/gc-stack.c'],
  [('enqueue roots', 'src/mmc.c enqueue_pinned_roots, enqueue_relocatable_roots; src/pcc.c add_roots; src/semi.c collect'), ('dispatch of queued roots', 'src/mmc.c trace_root')],
  TS)
P('C04', 'Every object reached is traced exactly as its space and kind require',
  'Whenever tracing first reaches an object, in whichever space it lives, the object is queued and all of its outgoing fields are visited according to its kind (precisely, conservatively, as an ephemeron, or not at all if it holds no pointers); every reference the tracer visits is updated when its target has moved. No space, object kind or root kind is left without a handler.',
  ['inputs', 'histories', 'configurations'], 'every object graph over every mix of spaces and object kinds',
  'The benchmarks use few object kinds and hardly any large, external or pointerless object on every trace path.',
  ['src/mmc.c', 'src/pcc.c', 'src/semi.c', 'src/tracer.h', 'src/serial-tracer.h', 'src/parallel-tracer.h', 'src/nofl-space.h', 'src/copy-space.h', 'src/large-object-space.h'],
  [('per-space edge dispatch', 'src/mmc.c do_trace; src/pcc.c do_trace; src/semi.c visit'), ('per-object trace plan', 'src/mmc.c trace_one')],
  'exhaustive-dispatch, must-flow and typestate rules over LLVM IR of every configuration')
P('C05', 'Tracing neither loses grey objects nor ends early',
  'Every object handed to the tracer is eventually traced by some worker: private, shared and root work queues never drop, overwrite or duplicate an entry (also when they overflow, wrap around or grow), and tracing is declared finished only when every worker is idle and every queue is empty. A worker that runs out of work looks at all other workers\' queues before it may sleep, a helper sleeps only once it has taken part in the latest trace it was woken for, and objects reached from roots in a roots-only trace are kept for the trace proper.',
  ['schedules', 'inputs', 'configurations'], 'every interleaving of tracing workers and every amount and distribution of work',
  'Work loss needs an overflow or a steal at a particular moment; only some benchmarks run parallel tracers.',
  ['src/parallel-tracer.h', 'src/serial-tracer.h', 'src/shared-worklist.h', 'src/local-worklist.h', 'src/simple-worklist.h', 'src/root-worklist.h'],
  [('overflow to shared queue and stealing', 'src/parallel-tracer.h'), ('termination', 'src/parallel-tracer.h trace_worker_should_continue/tracer_trace')],
  'typestate and value-flow rules over LLVM IR')
P('C06', 'A moved object is copied once, completely, before anybody can see its copy',
  'When the collector moves an object, exactly one thread copies it, the whole object is copied before its new address is published, and every other thread that reaches the object during that collection waits for and uses that same new address. If space for the copy cannot be found the object stays in place, is still marked and traced, and nobody is left waiting.',
  ['schedules', 'inputs', 'configurations'], 'every interleaving of workers racing to one object, with and without space for the copy',
  'Races between workers for the same object and failure of the copy allocation are rare and timing dependent.',
  ['src/nofl-space.h', 'src/copy-space.h', 'api/gc-forwarding.h'],
  [('forwarding protocol', 'src/nofl-space.h nofl_space_evacuate; src/copy-space.h copy_space_forward_atomic')],
  TS)
P('C07', 'Pinned and conservatively referenced objects never move',
  'An object that has been pinned, or that is reached through a conservative (possibly ambiguous) reference, stays at its address, both in the collection at hand and for as long as it is pinned; in collections that can move objects, all such references are processed before anything may be moved. A collector that cannot honour pinning refuses it.',
  ['histories', 'schedules', 'configurations'], 'every history of pinning, every conservative reference, in compacting and non-compacting collections',
  'Compacting collections of a heap with pinned objects are not exercised by the tests beyond a handful of runs.',
  ['src/mmc.c', 'src/nofl-space.h', 'src/pcc.c', 'src/semi.c'],
  [('pinned bit checked before evacuation', 'src/nofl-space.h nofl_space_should_evacuate'), ('pinned roots first', 'src/mmc.c collect')],
  TS)
P('C08', 'The write barrier records every old-to-new reference until a minor collection',
  'In generational configurations, every store of a reference to a young object into an old object is remembered, each such field once, until a minor collection has used it as a root; fast-path checks agree with the slow path on which objects and fields need recording, also for large objects. Recorded edges survive buffer overflow and thread exit, and a field is dropped from the set only together with its recorded flag.',
  ['histories', 'schedules', 'inputs', 'configurations'], 'every sequence of stores and collections by any number of threads',
  'The tests sample few store patterns; a lost edge shows only if nothing else keeps the young object alive at the next minor collection.',
  ['src/mmc.c', 'src/pcc.c', 'src/field-set.h', 'src/nofl-space.h', 'src/copy-space.h', 'src/large-object-space.h', 'api/gc-api.h', 'api/mmc-attrs.h', 'api/pcc-attrs.h'],
  [('slow path', 'src/mmc.c gc_write_barrier_slow; src/pcc.c gc_write_barrier_slow'), ('fast path', 'api/gc-api.h gc_write_barrier_slow_path checks'), ('edge set', 'src/field-set.h')],
  'typestate over LLVM IR plus agreement of compile-time constants between the inline API and the implementation')
P('C09', 'Ephemerons keep their value exactly while their key is live',
  'An ephemeron\'s value is kept alive by the ephemeron only if its key is reachable otherwise; when the key dies the ephemeron is broken, its key and value reading as null, and when the key survives or moves, key and value remain readable and up to date. Concurrent tracing, chaining and mutation never lose a live ephemeron or resolve it twice.',
  ['schedules', 'histories', 'inputs', 'configurations'], 'every reachability pattern among keys, values and ephemerons, every order in which they are traced',
  'The ephemeron test checks one pattern; order of tracing key before or after ephemeron, worker races and minor collections are not enumerated.',
  ['src/gc-ephemeron.c', 'src/mmc.c', 'src/pcc.c', 'src/semi.c', 'src/gc-ephemeron-internal.h'],
  [('state machine', 'src/gc-ephemeron.c gc_trace_ephemeron, gc_resolve_pending_ephemerons'), ('resolution at the end of tracing', 'src/mmc.c resolve_ephemerons_lazily/eagerly, sweep_ephemerons')],
  TS)
P('C10', 'Each finalizer fires once, after its object died, in priority order',
  'A finalizer becomes poppable exactly once and only when its object is unreachable after tracing and all lower-numbered priorities have been resolved and retraced; its object and closure are kept alive and correctly updated until it is popped. Finalizers whose objects live stay attached across any number of collections, and the embedder\'s callback is told of newly poppable finalizers after each collection that produced some.',
  ['histories', 'schedules', 'inputs', 'configurations'], 'every history of attach, collection and pop by any number of threads, every assignment of priorities',
  'The test attaches one priority level and pops from one thread.',
  ['src/gc-finalizer.c', 'src/mmc.c', 'src/pcc.c', 'src/semi.c'],
  [('finalizer tables and fired queue', 'src/gc-finalizer.c'), ('priority loop', 'src/mmc.c resolve_finalizers')],
  TS)
P('C11', 'Event listeners see every phase once, in order, with the right data',
  'Every collection announces its phases to the embedder\'s listener in the documented order, each exactly once, whatever the kind of collection and whatever is absent; thread and heap-size events are announced where they happen. Composite and built-in listeners deliver each event to the same event of their parts, with the same arguments and that part\'s own data.',
  ['histories', 'configurations'], 'every collection, in every collector',
  'No test checks event order; the bundled listeners are exercised one at a time.',
  ['src/mmc.c', 'src/pcc.c', 'src/semi.c', 'src/bdw.c', 'api/gc-event-listener.h', 'api/gc-event-listener-chain.h', 'api/gc-null-event-listener.h', 'api/gc-basic-stats.h'],
  [('HEAP_EVENT/MUTATOR_EVENT calls', 'src/mmc.c collect'), ('listener tables', 'api/gc-event-listener-chain.h')],
  TS)
P('C12', 'Newly allocated objects are zero-filled',
  'In the semi, pcc and mmc families, memory that is handed out for objects reads as zero in all of its bytes. A range from which small objects will be taken (the rest of a half-space after a collection, a hole found by sweeping, an empty block or half of one) is, when allocation from it starts, empty, new from the system, cleared over exactly its whole extent, or flagged as zero; the flag is that of the memory in use and is reset when the memory is used, and it is set only on memory that has been given back to the system. A block that is partly full records exactly where its free rest starts, and allocation resumes exactly there. A large object made from pages that were used before is cleared in all of its size. The inline fast path takes objects from nowhere else and as far apart as the collector expects.',
  ['histories', 'inputs', 'configurations'], 'every allocation size after every history of frees and collections',
  'Recycled memory differs from fresh memory only after particular histories, and the benchmarks initialise most fields.',
  ['src/nofl-space.h', 'src/copy-space.h', 'src/large-object-space.h', 'src/mmc.c', 'src/pcc.c', 'src/semi.c', 'api/gc-api.h'],
  [('clearing holes, blocks and large objects', 'src/nofl-space.h next_hole_in_block, acquire_empty_block; src/copy-space.h acquire_empty_block; src/semi.c collect; src/large-object-space.h large_object_space_obtain_and_alloc')],
  'path-sensitive typestate of the free range with symbolic extents over LLVM IR')
P('C13', 'Allocation returns an object, collects, or ends the program',
  'Memory asked of the system (malloc, calloc, realloc, strdup, mmap, the allocation functions of libgc) is not used before it is known that it was obtained, is not kept untested in a data structure, and a function that fails for want of it tells its caller, who notices; so gc_allocate_slow, gc_allocate_ephemeron and gc_allocate_finalizer never return null. An object is taken from the free range of a block or half-space only after a test that it fits there, or from a whole empty block. A small as well as a large allocation for which there is no room causes a collection. The program is ended for want of memory only if the heap size is fixed, never (in mmc) after only a minor collection, or because the program asked for a collection, or although memory has been allocated since the last collection, and (in semi) only after a collection that found no room; and a full heap of fixed size does end it, instead of collecting for ever.',
  ['inputs', 'histories', 'fault_sequences', 'configurations'], 'every size and kind, any heap occupancy, any failure of the operating system to provide memory',
  'The tests never run out of memory and never see mmap or malloc fail.',
  ['src/mmc.c', 'src/pcc.c', 'src/semi.c', 'src/bdw.c', 'src/gc-platform-gnu-linux.c', 'src/large-object-space.h', 'src/gc-options.c', 'src/gc-finalizer.c', 'src/gc-ephemeron.c', 'src/root-worklist.h', 'src/copy-space.h', 'src/nofl-space.h'],
  [('slow paths', 'src/mmc.c gc_allocate_slow, allocate_large, detect_out_of_memory; src/pcc.c collect; src/semi.c collect_for_alloc'), ('results of allocation functions', 'throughout src')],
  'path-sensitive must-test dataflow over results of allocation functions and over symbolic extents of free ranges, and dominating conditions of the out-of-memory exits, over LLVM IR')
P('C14', 'Inline fast paths agree with the collector they are compiled against',
  'The allocation, write-barrier and safepoint fast paths that are inlined into the embedder use the same layout, sizes, alignments, limits, bit patterns and object-size thresholds as the collector library, so that a fast-path allocation or barrier leaves the heap in the same state as the slow path would.',
  ['configurations', 'inputs'], 'every collector configuration and every object size and kind',
  'A disagreement corrupts metadata that only a later collection of a particular kind reads.',
  ['api/mmc-attrs.h', 'api/pcc-attrs.h', 'api/semi-attrs.h', 'api/bdw-attrs.h', 'api/gc-api.h', 'src/mmc.c', 'src/pcc.c'],
  [('attribute functions', 'api/*-attrs.h'), ('assertions at start-up, compiled out of optimised builds', 'src/mmc.c gc_init')],
  'agreement of compile-time constants, offsets and bit patterns extracted from the type-checked program')
P('C15', 'Options are validated before use',
  'Every option set by number, by string or from a list of settings is range-checked: an accepted value is stored, unchanged, in the option it names and lies in its range (heap-size-policy one of the three policies, parallelism 1 to 64, heap-size-multiplier 1 to a million, heap-expansiveness 0 to 50, sizes any size, numbers that overflow their type or carry trailing junk never), every value in range is accepted, and a rejected one leaves that option unchanged and reports failure. Every option name, policy name and size suffix (k, m, g, t in either case) means the same to every parser and setter; a list of settings is accepted only if each setting is. Defaults are in range, and a collector started without options uses the defaults.',
  ['inputs'], 'every option name and every value string or number',
  'The tests pass a few fixed options.',
  ['src/gc-options.c', 'src/gc-options-internal.h', 'api/gc-options.h'],
  [('X-macro tables', 'src/gc-options.c')],
  'typestate and exhaustive-dispatch rules over LLVM IR (range guards, correlated branches)')
P('C16', 'The heap stays within the size its policy allows',
  'The heap starts with the size that was asked for. A fixed heap is never resized after that; a growable one is resized only after a collection and only to grow, an adaptive one only to a size its sizer computes, with a multiplier of the live data that is a number between the least and the greatest multiplier and at least the least free space. When the recorded size (of the heap, or of the nursery of the generational pcc) changes, the space is told to give up, or may take back, exactly the difference, and each change of the heap size is announced once, with the new size (heap_resized). Every block that is taken out of use, or put to use again, is counted once, as one block, against what its space has to give up. The pages of a large object are charged, in full and before it gets them, against the space, and only once the space has given them up (the semi-space collector: has them left); after each collection the charge is exactly the pages of the live large objects, and the space may take back the rest.',
  ['histories', 'configurations'], 'every allocation and survival history under every sizing policy, on every path through the code that resizes and charges',
  'Tests run fixed sizes for most collectors, and an account that is off shows only as a heap that is a little too large or too small.',
  ['src/heap-sizer.h', 'src/growable-heap-sizer.h', 'src/adaptive-heap-sizer.h', 'src/mmc.c', 'src/pcc.c', 'src/semi.c', 'src/nofl-space.h', 'src/copy-space.h'],
  [('resize_heap', 'src/mmc.c, src/pcc.c, src/semi.c'), ('sizers', 'src/*-heap-sizer.h'), ('allocate_large', 'src/mmc.c, src/pcc.c, src/semi.c'), ('shrink, expand', 'src/nofl-space.h, src/copy-space.h')],
  'typestate over LLVM IR with linear forms for amounts: sizes against accounts, blocks moved against blocks counted, pages charged before use; policy tests by control dependence; bounds of the multiplier by dataflow')
P('C17', 'No deadlock among the collector\'s locks',
  'Every lock that is taken is released on every way out and by the thread that took it, no thread takes a lock it already holds, and all threads take nested locks in one global order. Every wait on a condition is made with the right lock held and re-checks its condition.',
  ['schedules', 'configurations'], 'every path of every thread through the collector',
  'A deadlock needs two threads at particular points; the tests pass through each nesting rarely.',
  ['src/mmc.c', 'src/pcc.c', 'src/nofl-space.h', 'src/copy-space.h', 'src/large-object-space.h', 'src/field-set.h', 'src/gc-finalizer.c', 'src/background-thread.h', 'src/parallel-tracer.h', 'src/adaptive-heap-sizer.h', 'src/growable-heap-sizer.h'],
  [('pthread mutexes and condition variables', 'all of src')],
  'lockset typestate and lock-order graph over LLVM IR of every configuration')
P('C18', 'Shared collector state is touched only under its lock or atomically',
  'Each piece of state that several threads may change (mutator registry, block lists, large-object tables, finalizer queues, edge-set buffers, worker queues, background tasks, sizing state) is read and written only with its own lock held, by atomic operations, or while no other thread can run.',
  ['schedules', 'configurations'], 'every interleaving of mutators, tracing workers and the background thread',
  'Data races rarely produce visible failures in a test run.',
  ['src/mmc.c', 'src/pcc.c', 'src/nofl-space.h', 'src/copy-space.h', 'src/large-object-space.h', 'src/field-set.h', 'src/gc-finalizer.c', 'src/background-thread.h', 'src/parallel-tracer.h'],
  [('locks and atomics', 'all of src')],
  'guarded-by lockset analysis over LLVM IR of every configuration')
P('C19', 'A heap block is on exactly one list or owned by exactly one thread',
  "In the mmc and pcc collectors every block of heap memory is at any time on exactly one list or owned by the one allocator (or step of the collector) that took it: a block taken from a list is put on exactly one list or kept as an allocator's current block, never dropped, never put on two lists, and never used without a test that the list had one; an allocator gives its block back, and forgets it, before it takes another one, before a collection, and before it ends. Only a block that cannot hold a survivor of the last collection (its mark found missing, its metadata cleared) is offered for allocation as empty, and a block with holes is handed out only after it has been swept. The list operations themselves do what they promise under any interleaving: push links the block to the rest of the list, pop returns the block it unlinked, a lost race starts over from the current head, the flags kept in the link word survive, and the count of blocks follows every push and pop, before or after, by exactly one.",
  ['schedules', 'histories', 'configurations'], 'every history of allocation, collection, growing and shrinking, and every interleaving of threads on the lists',
  'A lost or doubly-owned block shows only as slow leak or rare corruption.',
  ['src/nofl-space.h', 'src/copy-space.h'],
  [('block lists', 'src/nofl-space.h nofl_block_list/nofl_push_block/nofl_pop_block; src/copy-space.h copy_space_block_list, copy_space_block_stack'), ('allocators', 'src/nofl-space.h nofl_allocator; src/copy-space.h copy_space_allocator')],
  'ownership (linear-resource) typestate over LLVM IR')
P('C20', 'Memory is returned to the system only when nothing lives in it',
  "Memory is given back to the operating system, or counted as unavailable to allocation, only when nothing can live in it. In mmc and pcc only a block just taken from the queue of empty blocks is discarded, no more than that block, and it is then marked as paged out and zero and put on the paged-out list, from where it is marked available again before it is reused; a block marked paged out (or unavailable) is never on an allocation list and one on the paged-out list always is; a block's contents count as zero only if the system just provided or discarded it, and not any more once it is handed to an allocator. In semi only the part of a half-space beyond its usable size, which is reduced first by exactly as much, is discarded, the end of the heap is moved down only over room found to be free, and only the empty half is unmapped, after its replacement has been obtained. Pages of a large object are unmapped only when the object was found dead at least one collection before and has been removed from every table that can find it.",
  ['schedules', 'histories', 'configurations'], 'every interleaving of the background thread with allocation and collection, every history of growing and shrinking',
  'The background thread runs on a timer of seconds; tests end before it acts.',
  ['src/nofl-space.h', 'src/copy-space.h', 'src/large-object-space.h', 'src/semi.c'],
  [('page-out tasks', 'src/nofl-space.h nofl_space_shrink, nofl_page_out_memory; src/copy-space.h copy_space_page_out_blocks'), ('large objects', 'src/large-object-space.h large_object_space_process_quarantine'), ('half-spaces', 'src/semi.c region_trim_by, grow_region_if_needed')],
  TS)
P('C21', 'Large objects are tracked from allocation until freed exactly once',
  'Every large object is known to the collector from the moment it is allocated until it is found dead; a live one is never freed or moved, a dead one is freed exactly once, its memory is reused only for objects it can hold, and its metadata (age, kind, page counts) is forgotten with it. Young large objects are considered in minor collections, old ones are left alone.',
  ['histories', 'schedules', 'configurations'], 'every history of large allocations and collections of either kind',
  'Tests allocate few large objects and check none of their metadata.',
  ['src/large-object-space.h', 'src/address-map.h', 'src/address-set.h'],
  [('object map, nursery and marked sets, quarantine', 'src/large-object-space.h')],
  TS)
P('C22', 'A requested collection happens and is at least as thorough as requested',
  'When the embedder asks for a collection of some kind with gc_collect, a collection that starts after the request completes before the call returns, and it is of a kind at least as thorough (minor, then major, then compacting) as the one requested, even when several threads ask at once or another collection is already under way; a collector that cannot perform minor collections performs a major one. (A collector may substitute a major collection for a compacting one where nothing can be moved.) What the event listener is told about the kind is the kind that is performed.',
  ['schedules', 'histories', 'configurations'], 'every combination of concurrent requests of every kind',
  'Tests request collections from one thread.',
  ['src/mmc.c', 'src/pcc.c', 'src/semi.c', 'src/bdw.c'],
  [('gc_collect and trigger_collection', 'src/mmc.c, src/pcc.c'), ('kind selection', 'src/mmc.c determine_collection_kind')],
  TS)
P('C23', 'Every collector implements the whole API and nothing leaks past it',
  'Every collector configuration provides a definition, with the declared signature, for every function of the public API, so an embedder can be switched to any other collector by recompiling; internal functions are not exported. The inline parts of the API compile for every collector; the roots and external space an embedder sets are kept and used, and gc_init provides a heap and a mutator and keeps the listener data whenever it reports success.',
  ['configurations'], 'all collector configurations and all API functions',
  'The benchmarks use a subset of the API, so a missing function links nowhere.',
  ['api/gc-api.h', 'api/gc-ephemeron.h', 'api/gc-finalizer.h', 'api/gc-options.h', 'src/mmc.c', 'src/pcc.c', 'src/semi.c', 'src/bdw.c', 'embed.mk'],
  [('GC_API_ declarations', 'api/*.h'), ('definitions', 'src/*.c')],
  'agreement of declarations (clang AST) with symbols defined per collector; typestate over LLVM IR for setters and gc_init')
P('C24', 'The Boehm adapter shows the collector every reference it must follow',
  'On the Boehm-Demers-Weiser collector, the heap, mutators, ephemerons and finalizers are allocated, cleared, as objects of kinds whose mark procedures give the collector, for one that is in use, the roots the embedder has set, the waiting finalizers, every mutator, every free list (and every object on the free lists of pointerless objects), and what an ephemeron or finalizer keeps alive, and, for one on a free list, only the rest of that list; nothing pushed on the mark stack is lost. The key of an ephemeron is not kept alive by it and is registered to disappear when the key (not the ephemeron) dies, if it is an object of the collector; an ephemeron whose key is gone is made dead before it is traced. A finalizer that is attached is registered without order for its object, ready, with a callback that fires it, and the embedder is told that there are finalizers. Objects with references are allocated, from free lists or not, where the collector scans them, pointerless ones where it does not. The collector is initialized, kinds are made, the heap made a root and threads registered before they are needed; a mutator is put on the list of mutators and taken off it completely and under the lock, before its thread is unregistered, and its roots are then forgotten. Calls made without the collector are made through its blocking call.',
  ['histories', 'configurations'], 'every use of the API when built on the Boehm collector',
  'The tests run short programs on this adapter, which scans stacks conservatively and so hides most references that were not given to it.',
  ['src/bdw.c', 'api/bdw-attrs.h'],
  [('mark procedures', 'src/bdw.c mark_heap, mark_mutator, mark_ephemeron, mark_finalizer, bdw_mark_edge'), ('registration', 'src/bdw.c gc_init, add_mutator, gc_ephemeron_init, gc_finalizer_attach, gc_finish_for_thread'), ('allocation', 'src/bdw.c gc_allocate_slow')],
  'typestate of mark procedures (mark stack, list walks) and must/order rules over LLVM IR')
P('C25', 'Background tasks run safely beside the program',
  'Every registered periodic task runs on the background thread without that thread holding a lock a collection needs in a way that can block it, tasks are registered before the thread uses them, and stopping the thread ends it promptly and waits for it before anything it uses goes away.',
  ['schedules', 'histories'], 'every interleaving of the background thread with start-up, collections and stopping',
  'Tests are shorter than the task interval.',
  ['src/background-thread.h', 'src/adaptive-heap-sizer.h', 'src/nofl-space.h', 'src/copy-space.h', 'src/large-object-space.h'],
  [('background thread state machine', 'src/background-thread.h')],
  TS,
  na='The statement turns on timing and interleaving of the background thread with collections (promptness, freedom from blocking), which no typestate or lock analysis in reach bounds; the functions that stop the thread and remove tasks are called by no program that is built. The lock discipline of the tasks is claimed under C17 and C18.')
P('C26', 'Conservative words are filtered before they are believed',
  'A word found by conservative scanning marks an object only after it is known to lie in the space looked at, outside the metadata of a slab, in a block that is in use, and at the start of an allocated object (or in its middle, when interior references are allowed; the search for the start never leaves the block and never crosses the end of another object), with a displacement the embedder declares valid when they are not; large objects that were freed are not marked. Every word that passes these checks is looked up and marked: none is skipped for another reason, words on stacks are always looked up as possibly interior, and what is returned is the start of the object.',
  ['inputs', 'configurations'], 'every bit pattern on a stack, in registers or in a conservatively traced object',
  'A stack contains arbitrary words; tests see the ones their run produced.',
  ['src/mmc.c', 'src/nofl-space.h', 'src/large-object-space.h', 'src/gc-trace.h', 'src/root.h', 'api/gc-conservative-ref.h'],
  [('reference resolution', 'src/nofl-space.h nofl_space_mark_conservative_ref; src/large-object-space.h large_object_space_mark_conservative_ref'), ('filter and ranges', 'src/mmc.c do_trace_conservative_ref, trace_conservative_edges; src/gc-trace.h')],
  'guard typestate over LLVM IR: the checks every path makes before marking, and the reasons every path has for not marking')
P('C27', 'Reported statistics reflect what happened',
  'The allocation counter, collection counts, heap-size figures and timing breakdown that a program can read only grow as documented, count each allocation and collection once, and are attributed to the collection kind and phase they belong to.',
  ['histories', 'schedules', 'configurations'], 'every history of allocations and collections',
  'No test compares the statistics to an independent count.',
  ['api/gc-basic-stats.h', 'src/mmc.c', 'src/pcc.c', 'src/semi.c', 'api/gc-histogram.h'],
  [('basic stats listener', 'api/gc-basic-stats.h'), ('allocation counters', 'src/mmc.c allocation_counter')],
  TS)
P('C28', 'Address maps, sets and trees return what was put in',
  'The address hash map, address set and splay tree used for large objects and tests behave as finite maps and sets for every sequence of additions, removals, lookups, growth and shrinking.',
  ['inputs', 'histories'], 'every sequence of operations',
  'The unit tests run random sequences; not every sequence.',
  ['src/address-map.h', 'src/address-set.h', 'src/splay-tree.h', 'src/address-hash.h'],
  [('hash table and splay tree', 'src/address-map.h, src/splay-tree.h')],
  na='Functional correctness of rehashing and of splay rotations quantifies over table contents and tree shapes; no dataflow or typestate argument in reach bounds them, and a structural proxy (which pointers are written in which order) would freeze the source text.')
P('C29', 'What one thread publishes without a lock, others see complete',
  'Wherever threads hand data to each other without a lock (work queues, forwarding words, edge-set buffers, pending-ephemeron chains, finalizer counts, stop flags) the writing thread publishes with release ordering or stronger only after the data is complete, and the reading thread acquires before using it; read-modify-write steps that race are single atomic operations.',
  ['schedules', 'configurations'], 'every interleaving and every memory ordering the language allows',
  'Tests run on x86, which hides missing ordering, and on few interleavings.',
  ['src/shared-worklist.h', 'src/nofl-space.h', 'src/copy-space.h', 'src/gc-ephemeron.c', 'src/gc-finalizer.c', 'src/field-set.h', 'src/parallel-tracer.h'],
  [('C11 atomics', 'all of src')],
  'atomic-ordering audit by data role over LLVM IR')
P('C30', 'The registry of threads matches the threads that joined',
  'Every thread that joined the heap and has not left is found, once, by the collector\'s walk over threads, whichever order threads join and leave in; a thread that joins or leaves waits for a collection in progress and never leaves dangling or missing neighbours in the registry.',
  ['schedules', 'histories', 'configurations'], 'every order of threads joining and leaving',
  'Tests start a fixed number of threads that leave at exit.',
  ['src/mmc.c', 'src/pcc.c'],
  [('mutator list', 'src/mmc.c add_mutator/remove_mutator; src/pcc.c')],
  TS)
P('C31', 'Marks, ages and space roles turn over consistently at each collection',
  'In each collection the meaning of survivor and fresh marks is rotated exactly once if the collection is major and not at all if it is minor, for the main space and the large-object space alike and in the right phase (before anything is marked, or after everything has been); spaces are flipped exactly once in copying collectors (the old generation only in a major collection); blocks marked in an earlier major collection start unmarked, full, promoted and old blocks are swept again only in a major collection, and the age of surviving blocks and large objects follows the kind of the collection that was actually performed.',
  ['histories', 'configurations'], 'every sequence of minor, major and compacting collections',
  'Confusion shows only after several collections of alternating kinds.',
  ['src/nofl-space.h', 'src/copy-space.h', 'src/large-object-space.h', 'src/mmc.c', 'src/pcc.c', 'src/semi.c'],
  [('mark rotation', 'src/nofl-space.h nofl_space_prepare_gc/start_gc/finish_gc'), ('flip', 'src/copy-space.h copy_space_flip'), ('large object marks', 'src/large-object-space.h large_object_space_start_gc/finish_gc')],
  TS)
P('C32', 'Adaptive sizing reaches the size its formula gives',
  'The adaptive policy grows and shrinks the heap to the size its allocation-rate and collection-cost formula gives, and estimates of live size converge to the amount actually live.',
  ['histories'], 'every allocation and survival rate',
  'Depends on measured rates.',
  ['src/adaptive-heap-sizer.h', 'src/mmc.c'],
  [('heartbeat', 'src/adaptive-heap-sizer.h')],
  na='A statement about numerical values computed from clocks and allocation rates at run time; static analysis in reach cannot bound them. The structural clauses (who may resize, bounds applied, locks) are claimed under C16, C17 and C18.')
P('C33', 'Work stealing is linearizable',
  'Concurrent pushes, pops and steals on one work queue behave as if executed one at a time: every pushed entry is taken by exactly one taker.',
  ['schedules'], 'every interleaving of one owner and any number of thieves under the C11 memory model',
  'Tests sample interleavings.',
  ['src/shared-worklist.h'],
  [('Chase-Lev deque', 'src/shared-worklist.h')],
  na='Linearizability quantifies over interleavings of index values; deciding it needs model checking or proof, not static analysis. Structural clauses (orderings, publication after write, no overwrite on growth) are claimed under C05 and C29.')

P('C34', 'Memory obtained from the system is where, as big and as aligned as asked',
  'Memory the collector acquires from a reservation lies at the requested offset inside that reservation and has the requested size; a reservation honours the requested alignment and its unaligned surplus is given back exactly; a failure of the system to provide, protect or release memory is noticed where it happens; discarding pages is reported as done only when it was, and only by a means after which they read as zero; releasing memory releases exactly the range given.',
  ['inputs', 'fault_sequences', 'configurations'], 'every size, alignment and address the kernel may choose, and every failing system call',
  'The kernel happens to return convenient addresses and never fails in the tests.',
  ['src/gc-platform-gnu-linux.c', 'src/gc-platform.h'],
  [('mmap, munmap and madvise wrappers', 'src/gc-platform-gnu-linux.c')],
  'value-flow (linear form) and must-check rules over LLVM IR')

HOLD = set()  # rules exist but do not decide enough of the statement yet

def main():
    sys.path.insert(0, os.path.join(V, 'engine')); sys.path.insert(0, V)
    import importlib, core
    sys.modules['core'] = core
    core.load_rules()
    claimed = [p['id'] for p in PROPS if p['id'] in core.PROPS and not p['na'] and p['id'] not in HOLD]
    unknown = set(core.PROPS) - set(p['id'] for p in PROPS)
    assert not unknown, unknown
    for p in PROPS:
        for f in p['files']: assert os.path.exists('/repo/' + f), f
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']),
                     why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))
            f.write(json.dumps(d) + '\n')
    man = dict(version=1, setup_cmd='python3 engine/build.py --setup',
               checks=[dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                            technique=p['tech'] or TS, level='other', level_note=p['note'] or TRUST) for p in PROPS if p['id'] in claimed],
               not_applicable=[dict(property=p['id'], reason=p['na'] or 'No rule written yet that decides it; not claimed in this commit.') for p in PROPS if p['id'] not in claimed],
               notes='Static analysis of /repo by rules over the LLVM IR of each collector configuration; see DESIGN.md. No hooks in /repo.')
    json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
    print(len(PROPS), 'properties;', len(claimed), 'claimed:', ' '.join(claimed))
if __name__ == '__main__': main()
