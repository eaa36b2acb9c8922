#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["include/itlib/%s.hpp" % f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

H, I, S, F, C = "histories", "inputs", "schedules", "fault_sequences", "configurations"

# ---------------------------------------------------------------- concurrency
p("C01", "atomic_shared_ptr_storage is a linearizable cell that conserves ownership",
  "Concurrent load, store, exchange and compare_exchange on one atomic_shared_ptr_storage behave as if executed one at a time in some order consistent with real time, where compare_exchange succeeds exactly when the stored pointer equals the expected one and otherwise reports the stored one through its first argument. Every object handed in is destroyed exactly once, after the last owner (storage or caller) has let go of it and not before. Destroying or replacing a held object from within its own deleter chain never deadlocks other users of the storage.",
  [S, H], "all interleavings of 2-3 threads doing 1-3 operations each on one shared storage (complete for 2 threads, preemption bounded for 3), for every assignment of operations to threads",
  "The tests run a few threads for a moment on a real scheduler; a lost exchange, a torn copy or a double release needs one particular interleaving they do not control.",
  ["atomic_shared_ptr_storage"],
  [("spin lock around each operation on the wrapped pointer", "atomic_shared_ptr_storage.hpp: impl::asps_holder, impl::asps_spinlock"),
   ("delegation to std::atomic<std::shared_ptr> when the library has it", "atomic_shared_ptr_storage.hpp: top-level #if")],
  [("wrapped shared_ptr", "current value of the cell", "impl::asps_holder")],
  ["return values of load/exchange/compare_exchange", "destruction of the pointees", "use_count"])
p("C02", "atomic_shared_ptr_storage publishes what was written before the store",
  "Whatever a thread wrote before handing a pointer to store, exchange or a successful compare_exchange is visible, without a data race, to any thread that afterwards obtains that pointer from the same storage. No sequence of concurrent operations on the storage is itself a data race, and everything an owner did with an object happens-before its destruction.",
  [S], "all interleavings of 2-3 threads, with a happens-before race detector that honours the memory orders actually requested on every plain and atomic access",
  "On x86 the test-suite cannot observe a missing acquire or release, and tests only run one of the possible interleavings.",
  ["atomic_shared_ptr_storage"],
  [("acquire on lock, release on unlock", "atomic_shared_ptr_storage.hpp: impl::asps_spinlock::lock/unlock")],
  observe=["happens-before relation between plain accesses of the pointee"])
p("C03", "strong_try_rec_mutex: mutual exclusion, recursion, no spurious failure",
  "At most one thread owns a strong_try_rec_mutex, the owner may lock it again any number of times, and it becomes free exactly when the owner has unlocked as many times as it locked. try_lock fails only if another thread owns the mutex at some moment of the call, and it never blocks. What an owner wrote is visible without a data race to the next owner.",
  [S, H], "all interleavings of 2-3 threads each running every short program of try_lock/unlock (nested and repeated), including threads whose first action is to observe the result of another",
  "The tests use two free-running threads; a spurious failure or a wrongly released recursive lock shows in one interleaving only.",
  ["mutex"],
  [("owner id and depth under an internal mutex", "mutex.hpp: strong_try_rec_mutex::try_lock, unlock")],
  [("owner/depth", "owning thread and recursion depth", "strong_try_rec_mutex")],
  ["try_lock result", "accesses to data guarded by the mutex"])
p("C04", "data_mutex: data is reachable only while the matching lock is held",
  "Every accessor obtained from unique_lock, shared_lock or a successful try_ variant gives access to the data for exactly as long as the matching lock mode is held on the mutex, and the lock is released exactly once, in the same mode, when the last owner of the accessor goes away, whether or not the accessor was moved. A try_ accessor converts to true exactly when it acquired the lock, and never blocks. If locking throws, nothing is unlocked.",
  [S, H, F], "all interleavings of 2-3 threads over every accessor kind and over std and user supplied mutexes; every sequence of create/move/destroy of accessors in one thread; every position of a throwing lock operation",
  "Tests check a handful of single-thread uses and one threaded run; exclusion, moved accessors and throwing mutexes quantify over schedules and histories.",
  ["data_mutex"],
  [("lock wrappers with the data pointer as ownership flag", "data_mutex.hpp: lock_base_t, unique_lock_base_t, shared_lock_base_t and the try_ variants")],
  observe=["calls made on the Mutex type", "bool conversion, operator*, operator->", "race detector on the data"])
p("C05", "atomic_relaxed_counter never loses or duplicates an update",
  "Concurrent ++, --, += and -= on one atomic_relaxed_counter are atomic: the final value is the sum of all updates, and each operator returns the value the counter had immediately after (or, for postfix forms, before) its own update, as if all updates had happened one at a time. load, store, assignment, copying and conversion read or write the whole value indivisibly and are never a data race.",
  [S, I], "all interleavings of 2-3 threads, every pair and triple of operations, several integral types including wrap-around values",
  "The test increments in a few threads and checks a sum; a lost update or a wrong returned value depends on the interleaving and on the operator used.",
  ["atomic"],
  [("single read-modify-write per operator", "atomic.hpp: atomic_relaxed_counter")],
  observe=["returned values", "final value"])

# ---------------------------------------------------------------- vectors
VW = "The tests run fixed scripts on a few sizes; the guarantee is over all histories, in particular positions, counts and reallocation/storage-switch points the scripts do not visit."
p("V01", "small_vector behaves as std::vector for every operation history",
  "After any sequence of operations (construction, assignment, push/pop, insert, emplace, erase, resize, reserve, clear, shrink, swap, copy, move) a small_vector holds the same sequence of elements as a std::vector given the same operations, and its return values, iterators, element access, size and comparisons agree with it. This includes empty ranges, zero counts, arguments that refer to elements of the same vector, self-assignment, moved-from vectors that are used again, and insert/erase positions outside the vector, which are rejected by an exception without changing anything.",
  [H, I, C], "all operation sequences up to a bound from empty and from pre-filled vectors, with all positions and counts 0..3, over inline capacities, revert thresholds, element types and allocators; pairs of vectors for copy/move/swap",
  VW, ["small_vector"],
  [("gap making and closing", "small_vector.hpp: grow_at, shrink_at, resize_impl"), ("choice of storage", "small_vector.hpp: choose_data, assign_impl, swap, move construction/assignment")],
  [("begin/end/data/capacity", "live range and current storage", "small_vector")],
  ["element values, size, returned iterators, comparison results"])
p("V02", "small_vector constructs, destroys and frees everything exactly once",
  "At every moment exactly size() elements of a small_vector are alive, all of them inside its current storage: no operation reads, assigns to or destroys an object that is not alive, constructs over a live one, or leaves one behind, and every element is created and destroyed through the vector's allocator. All memory comes from that allocator and is returned once, with the size it was requested with, to an equal allocator, also when the vector has been moved, swapped or copied. If an allocation fails inside an operation, nothing is destroyed twice or leaked and the vector still holds its previous elements (after a failed assignment: its previous elements or none).",
  [H, F, C], "the histories of V01 with instrumented elements and stateful allocators, with each allocation in turn made to fail",
  VW, ["small_vector"],
  [("manual construct/destroy of elements", "small_vector.hpp: grow_at, shrink_at, resize_impl, destroy_all, emplace_at, assign_impl"), ("allocator bookkeeping", "small_vector.hpp: choose_data, swap, move")],
  observe=["constructor/destructor calls of the element type", "allocate/deallocate calls of the allocator"])
p("V03", "small_vector keeps its inline/heap storage promises",
  "A small_vector uses no allocation while its contents have never needed more than its inline capacity, never reports a capacity below its size, reserve(n) makes room for n elements so that no reallocation happens until they are used up, and elements keep their addresses whenever std::vector would keep them within one storage. shrink_to_fit and revert_to_static move the elements to the inline storage whenever they fit (revert threshold respected), is_static and capacity tell the truth about where the elements are, and element storage is always aligned for the element type.",
  [H, C], "the histories of V01 for all inline capacities and revert thresholds explored, including size equal to the inline capacity",
  VW, ["small_vector"],
  [("storage choice and thresholds", "small_vector.hpp: choose_data, shrink_to_fit, revert_to_static, reserve")],
  observe=["data() address relative to the object", "is_static, capacity, allocator call counts"])
p("V04", "static_vector is a bounded std::vector that rejects overflow unchanged",
  "After any sequence of operations that fit its capacity a static_vector holds the same sequence of elements as a std::vector given the same operations, with agreeing return values, iterators, access, size and comparisons. An operation that would exceed the capacity, however large the requested count, throws std::out_of_range (the default error handling) and leaves the vector exactly as it was (a rejected assignment: as it was or empty); the vector never writes outside its own storage and never allocates.",
  [H, I, C], "all operation sequences up to a bound for capacities 1..4 and every position/count/value, including overflowing by one and by several, copy/move/swap/compare of pairs and of different capacities",
  VW, ["static_vector"],
  [("capacity checks before modification", "static_vector.hpp: I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF call sites"), ("gap making and closing", "static_vector.hpp: insert/emplace/erase")],
  observe=["elements, size, thrown exceptions, guard bytes around the object"])
p("V05", "static_vector constructs and destroys every element exactly once",
  "At every moment exactly size() elements of a static_vector are alive, in its first size() slots: no operation reads, assigns to or destroys an object that is not alive, constructs over a live one, or leaves one behind, also for rejected operations, empty ranges, self-assignment, swaps of different sizes and moved-from vectors. Trivially destructible element types behave the same as non-trivial ones.",
  [H], "the histories of V04 with instrumented elements", VW, ["static_vector"],
  [("manual construct/destroy of elements", "static_vector.hpp: assign, insert, erase, resize, swap, move assignment")],
  observe=["constructor/destructor calls of the element type"])
p("V08", "small_vector survives exceptions of its elements",
  "If the constructor of an element throws inside an operation of a small_vector, the exception reaches the caller and no element leaks, is destroyed twice or is counted without having been constructed, and no memory block leaks. push_back, emplace, emplace_back and insert (also of an own element) leave the vector's elements exactly as they were; resize keeps all the previous elements, followed by none or some of the new ones; a failed assignment leaves some valid contents; a constructor that throws leaves nothing behind. The vector stays fully usable afterwards. (Moves are assumed not to throw.)",
  [H, F, C], "the histories of V01 with each element construction of each operation in turn made to throw",
  VW, ["small_vector"],
  [("size updated only for constructed elements", "small_vector.hpp: resize, resize_fill, assign_*"), ("hole closed again", "small_vector.hpp: insert, emplace, push_back after grow_at")],
  observe=["constructor/destructor calls of the element type", "allocate/deallocate calls", "elements and size after the exception"])
p("V09", "static_vector survives exceptions of its elements",
  "If the constructor of an element throws inside an operation of a static_vector, the exception reaches the caller and no element leaks, is destroyed twice or is counted without having been constructed. push_back, emplace, emplace_back and insert (also of an own element) leave the vector's elements exactly as they were; resize keeps all the previous elements, followed by none or some of the new ones; a failed assignment leaves some valid contents; a constructor that throws leaves nothing behind. The vector stays fully usable afterwards. (Moves are assumed not to throw.)",
  [H, F], "the histories of V04 with each element construction of each operation in turn made to throw", VW, ["static_vector"],
  [("size updated only for constructed elements", "static_vector.hpp: push_back, emplace_back"), ("hole closed again", "static_vector.hpp: insert, emplace after grow_at")],
  observe=["constructor/destructor calls of the element type", "elements and size after the exception"])
p("V06", "pod_vector behaves as std::vector of the same trivial type",
  "After any sequence of operations a pod_vector holds the same sequence of elements as a std::vector given the same operations, except that elements added without a value are zero bytes if the allocation policy asks for zero-filling and unspecified otherwise, and its return values, iterators, access, size and capacity guarantees agree with it; two pod_vectors compare equal exactly when their sizes and bytes are equal. This includes empty ranges, zero counts, arguments that refer to elements of the same vector, assignment from ranges of other containers, self-assignment, and moved-from vectors.",
  [H, I, C], "all operation sequences up to a bound with all positions and counts, several element sizes and alignments, the default allocation policy and user supplied ones that can or cannot expand in place",
  VW, ["pod_vector"],
  [("gap making by memory moves", "pod_vector.hpp: insert/erase/resize/assign helpers"), ("growth policy", "pod_vector.hpp: reserve/grow paths")],
  observe=["element values, size, returned iterators, reported invalidation"])
p("V07", "pod_vector memory discipline: alignment, ownership, in-place growth, recast",
  "Every block a pod_vector uses comes from its allocation policy, is aligned for the element type, is large enough for the reported capacity and is released exactly once through the same policy. Operations that report whether storage moved tell the truth, data outside [data, data+capacity) is never touched, and taking a pod_vector of another element type whose alignment is not stricter hands over the same block, so that contents, size in bytes (rounded down to whole elements) and ownership are preserved and the result remains fully usable.",
  [H, C], "the histories of V06 with recording allocation policies; all recast pairs of element types of equal, smaller and larger size and every length up to a bound",
  VW, ["pod_vector"],
  [("allocation policy", "pod_vector.hpp: pod_allocator, a_malloc, a_realloc_begin, a_expand_begin, a_free_begin"), ("recast", "pod_vector.hpp: recast_take_from, recast_copy_from")],
  observe=["allocation policy calls", "data() address and alignment"])

p("M04", "flat_map and flat_set survive exceptions",
  "If a comparison, the construction of an element or an allocation throws inside insert, emplace, operator[], erase by key, reserve or a lookup of a flat_map or flat_set, the exception reaches the caller and the container holds exactly the elements it held before, still sorted and unique, and remains fully usable; a constructor that throws leaves nothing behind. No element or memory block leaks or is destroyed twice. This holds with std::vector, small_vector and static_vector as underlying container (element moves are assumed not to throw). After a failed copy assignment the container can still be assigned to, cleared and destroyed.",
  [H, F], "all operation histories up to a bound with each comparison, each element construction and each allocation of each operation in turn made to throw",
  "Tests have no throwing comparisons or elements; every operation has several points where an exception can happen.",
  ["flat_map", "flat_set"],
  [("position found before anything is modified", "flat_map.hpp, flat_set.hpp: insert, emplace, operator[]"), ("temporary element", "flat_map.hpp, flat_set.hpp: emplace")],
  observe=["contents, order and size after the exception", "constructor/destructor and allocation calls"])
# ---------------------------------------------------------------- maps
p("M01", "flat_map is a std::map for every history, comparator and container",
  "After any sequence of operations a flat_map holds exactly the keys and values a std::map with the same comparator would hold, in the same order, and lookups, insertion results, erase results, bounds, iteration, comparison, swap and access agree with it; of several equivalent keys given at once the first one wins, as in std::map. This holds for stateful and transparent comparators, for every supported underlying container, and for checked access, which rejects missing keys without changing the map.",
  [H, I, C], "all operation sequences up to a bound over a small key alphabet with equivalent-but-distinguishable keys, all input ranges up to a length (and long enough to cross algorithm thresholds), several comparators and containers",
  "Tests check fixed scripts with int and string keys; sortedness, uniqueness and which duplicate wins quantify over all histories and inputs.",
  ["flat_map"],
  [("sorted vector and binary search", "flat_map.hpp: lower_bound, insert/emplace, constructors (sort + unique)")],
  [("underlying container", "sorted sequence of pairs without equivalent keys", "flat_map")],
  ["iteration order, returned pairs, comparator calls"])
p("M02", "flat_set is a std::set for every history, comparator and container",
  "After any sequence of operations a flat_set holds exactly the elements a std::set with the same comparator would hold, in the same order, and lookups, insertion results, erase results, bounds, iteration, comparison, swap and container access agree with it; of several equivalent elements given at once the first one wins. This holds for stateful and transparent comparators and for every supported underlying container.",
  [H, I, C], "as for M01", "As for M01.", ["flat_set"],
  [("sorted vector and binary search", "flat_set.hpp: lower_bound, insert/emplace, constructors (sort + unique), modify_container/assign")],
  observe=["iteration order, returned pairs"])
p("M03", "Heterogeneous lookup agrees with lookup by a converted key",
  "For flat_map and flat_set with a transparent comparator, and for transparent_umap, find, count, bounds, at, erase, operator[] and try_emplace (those of them the container has) given an argument of another type give the same answer as the same call given an equal key of the key type, never construct a key to look something up, and insert a key equal to the argument exactly once when they insert. Containers whose comparator or hash is not transparent keep the standard behaviour.",
  [H, I], "all sequences of heterogeneous and plain operations up to a bound over a small key alphabet, in lockstep with standard containers",
  "The transparent_umap test is empty and flat_map tests cover a few string literals.",
  ["transparent_umap", "flat_map", "flat_set"],
  [("transparent overloads", "transparent_umap.hpp; flat_map.hpp/flat_set.hpp templates enabled for is_transparent")],
  observe=["results, key constructions counted"])
p("B01", "dynamic_bitset agrees with a plain sequence of bools",
  "After any sequence of set, reset, flip, push, resize, append, assign, copy-range and query operations a dynamic_bitset reads as the sequence of bools a straightforward model holds, independent of the word type, and any, all, none, sizes, iterators and bit references agree with that sequence. Bits outside the addressed range are never changed, and bits past the end never influence any result. An operation whose allocation fails changes nothing.",
  [H, I, C], "all operation sequences up to a bound for sizes around word boundaries and every offset/length combination of range copies, for word types of 8 to 64 bits",
  "Tests use a few sizes; range copies alone have four independent offsets/lengths modulo the word size.",
  ["dynamic_bitset"],
  [("word/mask arithmetic", "dynamic_bitset.hpp: copy, resize, fill, operators"), ("tail handling", "dynamic_bitset.hpp")],
  observe=["bits, sizes, raw words"])

# ---------------------------------------------------------------- value holders
p("A01", "any holds, returns, copies, moves and swaps exactly the given value",
  "After any history an any holds either nothing or one value of the decayed type last stored in it; any_cast returns that value (or a pointer into the any) exactly when asked for that type and otherwise throws or returns null, and has_value and type agree. Copies are independent, moves and swaps transfer the value and leave the source empty or with the other value, self-assignment and assignment from a part of itself keep the value, and emplace replaces it.",
  [H, I], "all operation sequences up to a bound over two anys and value types that are small, large, over-aligned, throwing, const, lvalue and rvalue",
  "Tests go through one script per operation; independence, self-assignment and type bookkeeping quantify over all histories.",
  ["any"],
  [("type-erased block with type id and copy/destroy functions", "any.hpp: block, emplace, copy/move/swap")],
  observe=["any_cast results, has_value, type"])
p("A02", "any destroys, frees and allocates correctly, also when something throws",
  "Every value stored in an any is destroyed exactly once, every block is allocated with the any's own allocator, suitably aligned, and returned once to an equal allocator with the same size, through copies, moves, swaps, emplace, reset and destruction. If allocation or the stored type's constructor throws, nothing leaks, nothing is destroyed twice and the any is left empty or unchanged.",
  [H, F, C], "the histories of A01 with stateful allocators and a failure injected at every allocation and every constructor call in turn",
  "Tests count a few allocations; failure points and allocator mixtures are not enumerated.",
  ["any", "pmr_allocator"],
  [("block allocation and destruction", "any.hpp: make_block/destroy paths")],
  observe=["allocator calls, constructor/destructor calls"])
p("E01", "expected holds exactly one of value and error through every history",
  "After any sequence of constructions, assignments, moves and swaps an expected (of a value, a reference, or void, with or without an error type) holds exactly the value or the error last given to it, has_value and conversion to bool say which, and value, error, value_or, operator* and operator-> return it. Copies are independent, assigning across states constructs the new alternative and destroys the old one exactly once, arguments passed as lvalues are never modified, and a constructor that throws during assignment leaves a destructible object that reports its true state.",
  [H, I, F], "all operation sequences up to a bound over two expecteds for each specialisation, value categories, and with every constructor call in turn made to throw",
  "There are four hand-written specialisations with their own assignment matrices; tests visit a few cells.",
  ["expected"],
  [("state switch on assignment", "expected.hpp: operator= of each specialisation"), ("in-place construction/destruction", "expected.hpp: union members")],
  observe=["has_value, value, error, constructor/destructor counts"])
p("F01", "ufunction calls exactly the callable it owns and owns it exclusively",
  "A ufunction invokes precisely the callable last assigned to it, forwarding arguments and result unchanged, including move-only, reference and void cases; empty, null and moved-from ufunctions test false. The callable is never copied after being handed over as an rvalue, is destroyed exactly once, when the ufunction is reassigned, cleared or destroyed, and moving transfers it.",
  [H, I], "all operation sequences up to a bound over two ufunctions and callables of various sizes, value categories and signatures",
  "Tests cover a few lambdas; ownership quantifies over histories of move/assign/clear.",
  ["ufunction"],
  [("type erasure over std::function or own storage", "ufunction.hpp")],
  observe=["results, argument identity, callable lifetime"])
p("G01", "generator yields exactly the produced sequence, with safe lifetime",
  "Iterating a generator, by next or by range-for or any mix of them, yields exactly the values its coroutine produces, in order and once each, then signals the end, for values, references and move-only types, and never runs the coroutine further than asked. An exception thrown by the coroutine surfaces at the pull that caused it and finishes the generator. The coroutine frame and its locals and the pending value are destroyed exactly once for every way of moving, reassigning, abandoning or exhausting the generator, and a pulled value which was left in the generator is gone before the coroutine runs on.",
  [H, F], "all sequences of pull/iterate/move/assign/destroy operations up to a bound over coroutines yielding 0..3 values or throwing after any of them",
  "Tests consume a few generators to the end; partial consumption, exceptions and moves at each point are histories.",
  ["generator"],
  [("promise, handle ownership, iterator", "generator.hpp")],
  observe=["values, done state, lifetimes of locals in the coroutine"])

# ---------------------------------------------------------------- streams
p("S01", "mem_ostreambuf stores exactly the written bytes, in order",
  "After any sequence of writes of any sizes, seeks to valid positions, tell queries, clear and container hand-overs, the bytes obtained from a mem_ostreambuf are exactly those a model byte buffer would hold, and reported positions agree with it. Seeks to invalid positions fail without effect, bounded containers accept only what fits and report failure for the rest, and a buffer is reusable after its container was taken.",
  [H, I, C], "all operation sequences up to a bound of single and block writes with sizes around the growth steps, seeks in all modes, over vector, string and static/small vector containers",
  "Tests write one or two strings; buffer growth, partially filled areas and repositioning quantify over histories.",
  ["mem_streambuf"],
  [("put area management and growth", "mem_streambuf.hpp: overflow, xsputn, seekoff/seekpos, get_container, clear")],
  observe=["container contents, tellp, stream state"])
p("S02", "mem_istreambuf reads exactly the given bytes, in order",
  "After any sequence of reads (single, peek, unget, putback, block, line), skips and seeks a mem_istreambuf delivers exactly the bytes of its buffer a model cursor would deliver, reports position and end of data accordingly, and never touches a byte outside the buffer. Seeks to invalid positions fail without moving, and resetting to another buffer starts afresh.",
  [H, I], "all operation sequences up to a bound for buffers of length 0..4 including bytes with the top bit set, seeks in all modes with offsets in and out of range",
  "Tests read a stream once front to back; the cursor and its limits quantify over histories and offsets.",
  ["mem_streambuf"],
  [("get area management", "mem_streambuf.hpp: mem_istreambuf seekoff/seekpos, xsgetn, reset")],
  observe=["bytes read, tellg, stream state, guard bytes"])
p("S03", "rstream reads like the stream it wraps and redirects restore the position",
  "Reading through an rstream yields exactly what reading the same stream buffer through a std::istream would, and only reading is offered. A redirect_rstream puts the wrapped stream back to the position at which the redirect was made when it goes away, for every nesting, every amount read in between and also after end of data was reached.",
  [H, I], "all sequences up to a bound of read/seek/nested redirect operations on short streams, in lockstep with std::istream",
  "Tests exercise one redirect; nested lifetimes and end-of-data states are histories.",
  ["rstream"],
  [("redirection and restore on destruction", "rstream.hpp")],
  observe=["bytes read, tellg, rdbuf"])

# ---------------------------------------------------------------- views
p("P01", "span views exactly the addressed elements and slices like a subrange",
  "A span made from a pointer and size, range, array or container refers to exactly those elements, and first, last, subspan, front, back, indexing, iteration in both directions, checked access, removal from either end and as_bytes address exactly the elements a model index range says. No slicing operation ever yields a span that reaches outside the original one, and constness of the elements is preserved.",
  [I, H], "all sizes 0..6, all offsets and counts including 0, size, size+1 and the largest representable ones, all chains of slicing operations up to a bound",
  "Tests use a handful of offsets on one array; slicing is a function of every (size, offset, count) and of chains.",
  ["span"],
  [("clamping of offset and count", "span.hpp: subspan, first, last, remove_prefix/suffix")],
  observe=["data, size, element addresses"])
p("P02", "stride_span addresses every stride-th element and slices consistently",
  "A stride_span made from memory, a stride and a size refers to the elements at multiples of the stride, and indexing, slicing, iteration in both directions, iterator arithmetic, comparison and difference all address the elements a model index range says, for element strides larger than the element and for views of members of an array of structures. No operation yields an element outside the original view, and const views do not permit writes. Debug builds catch (by an assertion) an index out of range in at and [].",
  [I, H], "all sizes 0..5, several strides, all offsets/counts including extreme ones, all iterator operation sequences up to a bound",
  "Tests walk one array forwards; iterator arithmetic and chains of slices are not covered.",
  ["stride_span"],
  [("address arithmetic in bytes", "stride_span.hpp: operator[], subspan, iterator")],
  observe=["element addresses, iterator differences"])
p("P03", "poly_span presents the same elements through a base or accessor type",
  "A poly_span over an array of derived objects or other sources yields for every index the element of the source converted by the chosen conversion, and indexing, slicing, iteration in both directions, iterator arithmetic, comparison and difference all address the elements a model index range says. Copies and slices refer to the same source and no operation yields an element outside the original view. Debug builds catch (by an assertion) an index out of range in at and [].",
  [I, H], "all sizes 0..5, several source element types and bases, all offsets/counts including extreme ones, all iterator operation sequences up to a bound",
  "Tests walk one array forwards.",
  ["poly_span"],
  [("stride plus conversion function", "poly_span.hpp: operator[], subspan, iterator")],
  observe=["element addresses, iterator differences"])
p("P04", "memory views view exactly the addressed elements and stay inside them",
  "A memory_view or const_memory_view made from a pointer and size, array, container or another view refers to exactly those elements; indexing, iteration, front, back and slicing (including counts and offsets beyond the end, which are clamped) address exactly the elements a model index range says, assignment and reset replace the view, and constness is preserved. No slice ever reaches outside the view it was made from. Debug builds catch (by an assertion) an index out of range in at and [].",
  [I], "all source element types and sizes 0..6 explored, all view helpers",
  "Tests construct a few views of one type.",
  ["memory_view"],
  [("view construction", "memory_view.hpp")],
  observe=["data, size, element values"])

# ---------------------------------------------------------------- utilities
p("L01", "pmr_allocator: every request reaches its memory resource and is matched",
  "Every allocation made through a pmr_allocator, directly, through object helpers or by a container using it, is served by its memory resource with sufficient size and alignment, and is returned to the same resource once with the same size and alignment. Copies and rebound allocators share the resource and compare equal exactly when their resources are equal, object helpers construct and destroy exactly one object and free its memory if construction throws, and a size that is not representable is rejected instead of being wrapped.",
  [H, I, F], "all sequences of allocate/deallocate/new/delete up to a bound for several types and alignments over recording resources, huge counts, and every failure point",
  "Tests use the default resource in one container.",
  ["pmr_allocator"],
  [("forwarding to the resource", "pmr_allocator.hpp")],
  observe=["memory resource calls"])
p("Q01", "qalgorithm range helpers equal their standard counterparts",
  "The range-taking algorithms (find, find_if, erase_first, erase_all, for-all and friends) return exactly what the corresponding std algorithm returns for the whole range, visiting elements in order and no more of them than needed, and erase helpers remove exactly the designated elements while keeping the others in order, reporting how many they removed. Const ranges give const access.",
  [I], "all sequences of length 0..6 over a 3-value alphabet, all search values and predicates, several container types",
  "Tests use a couple of vectors.",
  ["qalgorithm"],
  [("wrappers over std algorithms", "qalgorithm.hpp")],
  observe=["returned iterators and counts, container contents, predicate calls"])
p("Q02", "string helpers agree with their definition on every string",
  "starts_with, ends_with, remove_prefix_all, remove_suffix_all and make_string_view agree with their definitions for all strings and affixes: the result is a view into the original string, removal stops exactly when the affix no longer matches, an empty affix removes nothing, and empty inputs and embedded zero bytes need no special care.",
  [I], "all pairs of strings up to length 7 and affixes up to length 4 over a small alphabet including the zero byte",
  "Tests use a dozen literals.",
  ["strutil"],
  [("prefix/suffix loops", "strutil.hpp")],
  observe=["returned views (address and length)"])
p("T01", "time_t arithmetic, ordering, calendar round trips and formatting are exact",
  "Adding and subtracting any chrono duration, differences, comparisons and conversions of time_t are exact in whole seconds, and conversion to UTC or local calendar time and back yields the same instant and normalises its argument as the C library does. strftime returns exactly the text the C library produces for the format, of any length including empty, and always terminates.",
  [I], "all second values in windows around calendar boundaries (epoch, leap days, year ends, 32-bit limits, daylight saving changes), durations of several periods, and all format strings up to a length over a conversion alphabet, including those with empty and very long results",
  "Tests check a few instants and formats.",
  ["time_t"],
  [("duration_cast arithmetic, reentrant libc calls, growing buffer", "time_t.hpp")],
  observe=["returned values"])
p("K01", "make_shared, make_unique and make_aliased forward and own correctly",
  "make_shared and make_unique copy an lvalue and move an rvalue into exactly one newly owned object and leave lvalue arguments unchanged. make_aliased returns a pointer to the given target that shares ownership with the owner, and an empty null pointer whenever the owner owns nothing; the target's owner is destroyed exactly once, after the last sharer is gone.",
  [H, I], "all value categories and all sequences of create/copy/release up to a bound",
  "Tests check single calls.",
  ["make_ptr"],
  [("forwarding constructors, use_count test", "make_ptr.hpp")],
  observe=["copy/move counts, use_count, destruction order"])
p("K02", "enable_shared_from hands out pointers sharing the one owner",
  "For an object owned by shared pointers, shared_from and shared_from_this return pointers to exactly the requested (sub)object that share ownership with the existing owners, and the weak variants return weak references to the same ownership that expire exactly when it ends. None of them extends or shortens the lifetime beyond the pointers actually held, and asking for a shared pointer when nobody owns the object fails with an exception instead of creating an owner.",
  [H], "all sequences of obtain/copy/release operations up to a bound over single and multiple inheritance, const and non-const access",
  "Tests check single calls.",
  ["shared_from"],
  [("aliasing on top of std::enable_shared_from_this", "shared_from.hpp")],
  observe=["use_count, expiry, addresses"])
p("K03", "sentry runs its function exactly once at scope exit; throw_ex throws once",
  "A sentry invokes its function exactly once, when its scope is left, however it is left (end, return, break, exception), in reverse order of creation for several sentries, and not when it has been moved from. throw_ex throws exactly one exception of the requested type at the end of the full expression, carrying exactly the concatenation of everything streamed into it.",
  [H, I], "all scope programs up to a nesting depth with every exit point, exit kind and callable kind, in both the C++11 and C++17 variants; all sequences of streamed items up to a length",
  "Tests check a few exits.",
  ["sentry", "throw_ex"],
  [("call in destructor, moved-from flag", "sentry.hpp"), ("throw from destructor", "throw_ex.hpp")],
  observe=["call log, caught exception and message"])
p("X01", "type and memory utilities: exact casts, owner lookup and trait answers",
  "bit_cast preserves every bit both ways, owner_from_member yields the object containing the given member for every member and element, force_move yields an rvalue of the same object, and the traits answer correctly, in particular is_noop_convertible of two arithmetic types is true exactly if reinterpreting every value of the first type as the second gives the same result as converting it.",
  [I], "all 8- and 16-bit values and boundary patterns of wider types, all members of a set of layouts, all ordered pairs of scalar types",
  "Tests check a few instances.",
  ["utility", "type_traits"],
  [("memcpy, offset arithmetic, trait conditions", "utility.hpp, type_traits.hpp")],
  observe=["returned values and addresses"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
