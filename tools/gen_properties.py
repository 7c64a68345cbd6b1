#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/stdx/"
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": [I + f for f in files],
                          "state": [{"name": a, "meaning": b, "where": I + c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": I + b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Operations on an atomic value are indivisible",
     "Any number of threads and interrupt handlers may load, store, exchange, add, subtract, increment, decrement and bit-combine one shared atomic value, and every call behaves as if it happened in one indivisible step between its start and its end. Each call returns the value that its own step saw or produced, in the form documented for that operation, so no update is ever lost, repeated or mixed with another. This holds for every supported value type, including those the platform stores in a wider type.",
     ["schedules", "histories", "configurations"],
     "every interleaving (including nested interrupt preemption at any memory access) of every mix of operations, operands and value types",
     "The suite compiles none of the atomic code (its platform dependency is absent) and single-threaded tests see one schedule; a lost update needs a preemption inside one operation.",
     ["atomic.hpp"],
     [("each operation is exactly one platform read-modify-write", "atomic.hpp: fetch_add/fetch_sub/fetch_and/fetch_or/fetch_xor/exchange"),
      ("compound and increment operators compute their result from the fetched value", "atomic.hpp: operator+= .. operator^=, operator++/--")],
     [("value", "the shared cell, stored in the platform's atomic type", "atomic.hpp")],
     ["return values of all calls", "final value after all threads finish"])

prop("C02", "Operations on an atomic bitset are indivisible and report the prior set",
     "Threads and interrupt handlers may concurrently set, reset, flip (one bit, a range, or all), load, store and query one shared atomic bitset, and every call behaves as one indivisible step between its start and its end. A bit-changing call affects exactly the positions it names and, where it returns a set, returns the whole set as it was immediately before its own change. A query (a single bit, all, any, none, count, a conversion) answers for one single instant and never counts positions beyond the capacity.",
     ["schedules", "histories", "configurations"],
     "every interleaving of every mix of bit operations over every capacity, storage width and argument",
     "The suite cannot build this header at all, and a sequential test cannot show two updates to neighbouring bits being merged wrongly or a query mixing two instants.",
     ["atomic_bitset.hpp", "bitset.hpp"],
     [("one platform or/and/xor per bit-changing call", "atomic_bitset.hpp: set/reset/flip"),
      ("one platform load per query, masked to the capacity", "atomic_bitset.hpp: salient_value and its callers")],
     [("storage", "the single shared storage element", "atomic_bitset.hpp")],
     ["returned bitsets", "query results", "final contents"])

prop("C03", "The memory ordering a caller asks for is honoured",
     "If one thread writes ordinary data and then performs an operation on an atomic value or atomic bitset with release (or stronger) ordering, any thread whose operation with acquire (or stronger) ordering observes that result also sees the data. This holds for every operation and for whichever ordering argument position or default the caller uses. Two acquire-and-release updates of the same object by different threads are always ordered this way, even if neither changes the stored value.",
     ["schedules", "programs", "configurations"],
     "every pair of publishing and observing operations, every legal combination of requested orderings, every interleaving and every stale value the C++ memory model permits",
     "Wrong orderings are invisible on strongly ordered hardware and in any single run; the suite never exercises ordering arguments.",
     ["atomic.hpp", "atomic_bitset.hpp"],
     [("ordering argument forwarded to the platform operation", "atomic.hpp and atomic_bitset.hpp: every member taking std::memory_order")],
     [], ["plain data read by the observer"])

prop("C04", "Default-ordered atomic operations share one global order",
     "When callers give no ordering argument, all operations on atomic values and atomic bitsets, across different objects, take effect in a single order that every thread agrees with. In particular, if two threads each update their own flag and then read the other's flag, at least one of them sees the other's update; and two observers never disagree on the order of two independent updates.",
     ["schedules", "programs", "configurations"],
     "every store-buffering, message-passing and independent-reads program over all default-ordered operations, under every interleaving and permitted stale read",
     "The failure needs two simultaneous stale reads on a weakly ordered machine; no existing test runs these operations at all.",
     ["atomic.hpp", "atomic_bitset.hpp"],
     [("sequentially consistent default ordering", "atomic.hpp and atomic_bitset.hpp: default arguments, operators without an ordering parameter")],
     [], ["values read by each thread"])

prop("C05", "Shared cells are reached only through the platform's atomic layer",
     "When the platform supplies its own implementation of atomic access (for example: disable interrupts, then do several ordinary steps) or a different storage type, every operation on an atomic value or atomic bitset is still indivisible with respect to every other thread and interrupt. After construction no read or write of a shared cell ever happens outside the platform's implementation, and every cell has the alignment the platform demands.",
     ["schedules", "configurations"],
     "every interrupt arrival point, every operation mix, and every platform customisation (access implementation and storage type)",
     "Existing tests use no customised platform, and an access that bypasses the platform layer is harmless until an interrupt hits that one instruction.",
     ["atomic.hpp", "atomic_bitset.hpp"],
     [("all member functions delegate to the platform's load/store/exchange/fetch functions", "atomic.hpp, atomic_bitset.hpp"),
      ("storage type and alignment chosen by the platform", "atomic.hpp: elem_t, alignment; atomic_bitset.hpp: elem_t, alignment")],
     [], ["every memory access to the shared cell", "operation results"])

prop("C06", "A stalled or dead participant never blocks an atomic object's other users",
     "If a thread stops forever at any point while using an atomic value or atomic bitset, every other thread's operations on that object and on all other atomic objects still complete within a bounded number of their own steps. Their results are those of a history in which the stopped operation either took full effect or none.",
     ["schedules", "crash_points", "histories"],
     "every crash or stall point of any subset of threads inside any operation, on a platform with lock-free atomic instructions",
     "A test cannot suspend a thread at a chosen instruction; a lock or retry loop hidden in an operation passes all sequential tests.",
     ["atomic.hpp", "atomic_bitset.hpp"],
     [("single-step platform operations, no locks and no retry loops", "atomic.hpp, atomic_bitset.hpp")],
     [], ["completion of the survivors' calls", "survivors' results"])

prop("C07", "A lazily computed value is computed once per need, even when computing fails",
     "A lazily computed value runs its computation only when the value is first asked for, and then never again until it is explicitly reset or refreshed; every read in between gives the same object with the same value. If the computation fails, the failure reaches the caller, the holder stays without a value, no partly built value is ever visible or leaked, and the next request runs the computation again. A refresh discards the old value and computes exactly one new one.",
     ["histories", "fault_sequences"],
     "every sequence of reads, queries, resets, refreshes, copies and moves, with the computation failing at any subset of its invocations",
     "Existing tests use computations that always succeed and a handful of fixed call sequences.",
     ["latched.hpp", "cached.hpp", "functional.hpp"],
     [("populate only when empty", "latched.hpp: populate"), ("deferred in-place construction", "functional.hpp: with_result_of"),
      ("reset and refresh clear before recomputing", "cached.hpp")],
     [("opt", "the computed value, if any", "latched.hpp")],
     ["number of computation runs", "addresses and values returned", "has-value queries"])

prop("C08", "A bounded queue is first-in first-out and survives failing element copies",
     "Elements come out of a bounded queue in the order they went in, each exactly once and unaltered, through any number of wrap-arounds, and size, emptiness, fullness, front and back always describe exactly the elements pushed and not yet popped. If copying or moving an element fails during a push or pop, the failure reaches the caller and the queue's size, order and remaining contents are exactly as before that call. Clearing empties the queue and leaves it fully usable.",
     ["histories", "fault_sequences"],
     "every history of push, pop, front, back, clear and copy over every capacity, with element copies and moves failing at any subset of points",
     "The existing tests run a few short fixed sequences on integers, whose copies cannot fail, and wrap around once.",
     ["cx_queue.hpp"],
     [("circular push and pop positions with an element count", "cx_queue.hpp: push, pop, clear")],
     [("push_index / pop_index / current_size", "position of the newest and oldest element, and the count", "cx_queue.hpp")],
     ["popped values", "size/empty/full/front/back"])

prop("C09", "A checked bounded queue reports misuse once and refuses it",
     "With overflow checking on, a push to a full queue and a pop, front or back on an empty queue each raise exactly one panic, with the overflow or underflow reason, before anything is changed; no other call ever raises a panic. When the installed handler does not return, the queue and all its elements are exactly as before the refused call, and the queue keeps working correctly afterwards.",
     ["histories", "fault_sequences", "configurations"],
     "every history that mixes legal calls with misuse at arbitrary points, for every capacity and element type",
     "Existing tests misuse one single-element queue once per operation and never look at the queue afterwards.",
     ["cx_queue.hpp", "panic.hpp"],
     [("capacity check before any change", "cx_queue.hpp: safe_overflow_policy, front/back/push/pop")],
     [], ["panic handler invocations and their reasons", "queue contents after a refused call"])

prop("C10", "A doubly linked intrusive list stays well formed and loses no node",
     "After any history of front and back pushes, insertions before any position (including the end), pops, removals from any place and clears, walking the list forwards visits exactly the nodes added and not yet taken out, in the right order, and the backward links mirror the forward ones. Every node can be taken out and put into the same or another list any number of times, whether or not node checking is on. Taking a node out hands back exactly that node and leaves every other node's place untouched.",
     ["histories", "configurations"],
     "every history over any number of lists and nodes shared by several tasks, with and without node checking, and with node link fields holding arbitrary stale values when checking is off",
     "The existing model-based test uses fresh nodes for every push, never inserts mid-list, and never reuses a node after it left a list.",
     ["intrusive_list.hpp", "detail/list_common.hpp"],
     [("link and unlink operations", "intrusive_list.hpp: unchecked_push_front/back, unchecked_insert, pop_front/back, remove, clear"),
      ("links cleared when a node leaves a checked list", "detail/list_common.hpp: on_pop, on_clear")],
     [("head / tail, node prev / next", "the chain", "intrusive_list.hpp")],
     ["forward walk", "backward links", "front/back/empty", "returned node pointers"])

prop("C11", "A singly linked intrusive list stays well formed and loses no node",
     "After any history of front and back pushes, front pops and clears, walking the list visits exactly the nodes added and not yet taken out, in the right order, and front, back and emptiness agree with it. Every node can be taken out and put into the same or another list any number of times, whether or not node checking is on.",
     ["histories", "configurations"],
     "every history over any number of lists and nodes, with and without node checking, and with stale link fields when checking is off",
     "The existing model-based test uses fresh nodes for every push and never reuses a node after it left a list.",
     ["intrusive_forward_list.hpp", "detail/list_common.hpp"],
     [("link and unlink operations", "intrusive_forward_list.hpp: unchecked_push_front/back, pop_front, clear")],
     [("head / tail, node next", "the chain", "intrusive_forward_list.hpp")],
     ["forward walk", "front/back/empty", "returned node pointers"])

prop("C12", "A checked list refuses a node that is still linked, leaving all lists intact",
     "With node checking on, trying to add a node whose link fields are already populated raises exactly one bad-node panic before anything changes, whichever list and whichever way of adding is used; adding an unlinked node never raises one. When the handler does not return, the target list, the list that holds the node and the node itself are exactly as before. A node that has left a checked list by pop, removal or clear always counts as unlinked and is accepted again.",
     ["histories", "fault_sequences", "configurations"],
     "every history that mixes legal use with attempts to add already linked nodes at arbitrary points, over several lists of both kinds",
     "Existing tests make one fixed bad push per function and check only that the panic happened.",
     ["detail/list_common.hpp", "intrusive_list.hpp", "intrusive_forward_list.hpp"],
     [("validity check before linking", "detail/list_common.hpp: checked::push_front/push_back/insert, valid_for_push"),
      ("links cleared on leaving", "detail/list_common.hpp: on_pop, on_clear")],
     [], ["panic handler invocations", "contents of every list after a refused call"])

prop("C13", "A bounded vector matches an ordinary sequence even when element copies fail",
     "A bounded vector always holds exactly the sequence that its history of appends, back-pops, element writes, clears, copies, assignments and bulk overwrites would give an ordinary sequence, seen the same way through indexing, forward and reverse iteration, front, back, size, fullness and comparison. If copying an element, or the user's bulk-overwrite function, fails part-way through a call, the failure reaches the caller, the size is as before, and every element that was in the vector (and was not overwritten by the user's own function) keeps its value; a whole-vector assignment is only required to be exact when it does not fail.",
     ["histories", "fault_sequences"],
     "every operation history over every capacity with element copies and moves failing at any subset of points (moves of a single element are assumed all-or-nothing)",
     "Existing tests use integers and a few fixed sequences; no element operation ever fails in them.",
     ["cx_vector.hpp"],
     [("append and pop at the current size", "cx_vector.hpp: push_back, pop_back"), ("size set from the user's function result", "cx_vector.hpp: resize_and_overwrite")],
     [("storage / current_size", "the elements and how many are live", "cx_vector.hpp")],
     ["element values via every accessor", "size"])

prop("C14", "Bounded sets and maps match reference containers even when copies fail",
     "A bounded set or map always holds exactly the keys (and for a map, the latest value of each key) that its history of insertions, assignments, erasures, merges, pops, clears and copies would give a reference container, with no key held twice, and every call's result says truthfully whether it inserted, assigned or erased. If copying an element fails part-way through a call (moves are taken never to fail), the failure reaches the caller and the contents are exactly as before (for a merge: as before plus a prefix of the merged keys; for an assignment to an existing key: only that key's value may differ; a failing whole-container assignment is excluded).",
     ["histories", "fault_sequences"],
     "every operation history over every capacity up to full, with element copies failing at any subset of points, for element types whose moves do not fail",
     "Existing tests are short fixed sequences on integers; no element operation ever fails in them.",
     ["cx_set.hpp", "cx_map.hpp"],
     [("linear search before append", "cx_set.hpp: insert; cx_map.hpp: insert_or_assign"), ("erase by moving the last element into the hole", "cx_set.hpp, cx_map.hpp: erase")],
     [("storage / current_size", "the elements and how many are live", "cx_map.hpp")],
     ["lookup of every key", "iteration", "size", "return values"])

prop("C15", "A bounded multimap keeps each key's value set exact even when copies fail",
     "A bounded multimap always associates with each key exactly the set of values its history would give a reference multimap: adding a pair never disturbs other pairs, adding a bare key makes it present with its values unchanged, erasing the last value of a key removes the key, and erasing a key removes all its values (whether erasing an absent value from a key without values removes that key is left open). If copying an element fails part-way through a call (moves are taken never to fail), the failure reaches the caller and all associations are exactly as before.",
     ["histories", "fault_sequences"],
     "every operation history within the key and value capacities, with element copies failing at any subset of points, for element types whose moves do not fail",
     "Existing tests are a handful of fixed calls on integers with no failing element operation.",
     ["cx_multimap.hpp", "cx_map.hpp", "cx_set.hpp"],
     [("map of sets, key dropped when its set empties", "cx_multimap.hpp: insert, erase")],
     [("storage", "map from key to set of values", "cx_multimap.hpp")],
     ["lookup of every key and pair", "iteration", "size", "return values"])

prop("C16", "An optional never leaks, double-destroys or invents a value when operations fail",
     "Through any history of construction, assignment, in-place replacement, reset, copy, move and chained calls, an optional is either empty or holds the last value given to it, every object it ever created is destroyed exactly once, and none is used after destruction. If constructing or copying a value, or a function passed to a chained call, fails, the failure reaches the caller and the optional is either unchanged or empty, and still usable. A function passed to a chained call runs exactly once when its inputs hold values (for the fallback form: when empty) and never otherwise, and it is offered the value as the caller offered the optional, so values given up are never copied.",
     ["histories", "fault_sequences"],
     "every operation history with value constructors, copies and passed-in functions failing at any subset of points (creating the empty marker itself is assumed not to fail)",
     "Existing tests use trivially destructible values that never fail and cannot see lifetimes.",
     ["optional.hpp", "functional.hpp"],
     [("destroy then construct in place", "optional.hpp: emplace, reset"), ("call only when a value is present", "optional.hpp: transform, and_then, or_else")],
     [("val", "the value or the empty marker", "optional.hpp")],
     ["constructor/destructor ledger of element objects", "has-value and value", "callback invocation counts"])

prop("C17", "Timers on a wrapping clock fire in true order across every rollover",
     "As long as all instants compared (the current time and pending deadlines) lie within less than half the counter's range of one another, comparing and computing with wrapping counter values gives the same answers as true unbounded time: of two instants the earlier is the lesser, sums and differences match elapsed time modulo the range, and the same holds when the counter is used as a clock tick type. Hence a timer queue ordered by that comparison fires every timer once, never early, and in deadline order, however often the clock wraps, jumps forward or is sampled late.",
     ["histories", "schedules", "fault_sequences"],
     "every history of scheduling, cancelling, clock advance, late sampling and rollover, for every counter width and start value",
     "Existing tests compare a few constants; they never run a clock through a rollover with timers outstanding.",
     ["rollover.hpp", "intrusive_list.hpp"],
     [("half-range comparison", "rollover.hpp: cmp_less"), ("modular arithmetic", "rollover.hpp: operators")],
     [("value", "the wrapped counter", "rollover.hpp")],
     ["comparison results versus true time", "firing order and times"])

prop("C18", "Range algorithms touch each element once, in order, and stop at a failure",
     "The range algorithms (for-each, counted, all-but-last, first/middle/last, transform and transform-reduce, over one or several inputs) read each input position of their range exactly once, call the user's function exactly once per position in order, write each output exactly once, and return positions that match the work done. If the user's function, reading an input or writing an output fails at any position, everything before that position has been done exactly once, nothing after it has been touched, and the failure reaches the caller.",
     ["crash_points", "inputs", "fault_sequences"],
     "every range length (including empty), every number of inputs, single-pass streams as well as arrays, and every failing position and kind of failure",
     "Existing tests run each algorithm on one small array with functions that never fail.",
     ["algorithm.hpp", "numeric.hpp"],
     [("one read, one call, one write, then advance, per step", "algorithm.hpp: transform, transform_n, for_each, for_each_n, for_each_butlastn, initial_medial_final; numeric.hpp: transform_reduce, transform_reduce_n")],
     [], ["log of reads, calls and writes", "returned positions"])

prop("C19", "Tuple and argument-pack visitors run once per element, in order, until a failure",
     "Visiting a tuple, array or argument pack (for-each, enumerate, transform, all/any/none, batch calls, call-by-need, folds) calls the user's function exactly once per element or batch with that element, in order, and no more than needed where an answer is already known. If a call fails, all earlier elements were visited exactly once, no later one is visited, the failure reaches the caller, and elements are neither lost nor changed by the visit itself.",
     ["crash_points", "programs", "fault_sequences"],
     "every tuple size and element kind (values, references, move-only), every number of tuples, and every failing position",
     "Existing tests use functions that never fail and mostly evaluate at compile time, where call order and failure are invisible.",
     ["tuple_algorithms.hpp", "tuple.hpp", "for_each_n_args.hpp", "call_by_need.hpp"],
     [("left-to-right expansion over the elements", "tuple_algorithms.hpp: for_each, enumerate, transform, all_of, any_of, none_of; for_each_n_args.hpp: apply; call_by_need.hpp: call_by_need; tuple.hpp: fold_left, fold_right, join")],
     [], ["log of calls and arguments", "tuple contents afterwards"])

prop("C20", "Walking a bitset visits exactly its members, however it was built or interrupted",
     "Whatever history of sets, resets, flips, range updates, shifts, complements and set algebra produced a bitset, walking it visits exactly the positions that are members (or exactly the non-members, if those are asked for), each once, in increasing order and all below its capacity, and reducing over it does the same. The reported lowest free position is the smallest non-member, or the capacity when there is none, so using it to hand out slots never hands out one slot twice. If the visitor fails part-way, the positions before it were visited once, none after, and the bitset is unchanged.",
     ["histories", "crash_points", "configurations"],
     "every construction history, every capacity and storage width, and every failing visit",
     "Existing tests walk a few constant bitsets built in one step, mostly with capacities that fill their storage exactly, and visitors that never fail.",
     ["bitset.hpp"],
     [("masking of the last storage element", "bitset.hpp: highbits, lastmask, for_each, transform_reduce, lowest_unset")],
     [("storage", "the bits, in whole storage elements", "bitset.hpp")],
     ["visited positions", "lowest free position", "membership queries"])

prop("C21", "Sharing for reading, or working on separate objects, needs no locking",
     "Any number of threads may at the same time call non-modifying operations on the same container, list, tuple, bitset, optional, counter, view or already-computed lazy value, and each gets the answer it would get alone. Threads that modify different objects, or write different bytes of one buffer through byte iterators, never affect or race with one another: there is no hidden shared state.",
     ["schedules", "programs"],
     "every interleaving at memory-access granularity of non-modifying calls on shared objects and of modifying calls on disjoint objects",
     "All existing tests are single-threaded; hidden caches or shared scratch state are invisible to them.",
     ["cx_vector.hpp", "cx_map.hpp", "cx_set.hpp", "cx_multimap.hpp", "cx_queue.hpp", "bitset.hpp", "tuple.hpp", "intrusive_list.hpp", "intrusive_forward_list.hpp", "optional.hpp", "latched.hpp", "byterator.hpp", "span.hpp", "rollover.hpp", "algorithm.hpp", "functional.hpp"],
     [("non-modifying members read only, no static or shared mutable state", "all container headers"), ("byte-wise copies of exactly the value's size", "byterator.hpp: peek, read, write")],
     [], ["results of each thread", "conflicting unsynchronised accesses"])

prop("C22", "Work handed from interrupts to tasks is processed exactly once, in order",
     "In a program that raises events from interrupts or threads through an atomic bitset, sequence numbers through an atomic value, queues work in a bounded queue, moves work items between intrusive lists and schedules retries on a wrapping clock, every event raised is handled, every work item is completed exactly once, items of one source complete in the order submitted, and nothing is handled that was not raised. This holds when queues fill up and report overflow, when handlers fail part-way and are retried, and when interrupts arrive at any instant; once the faults stop, all outstanding work completes within a bounded number of steps.",
     ["schedules", "fault_sequences", "histories"],
     "every interrupt arrival schedule, overflow, handler failure and clock jump in a whole program built from these parts",
     "No existing test composes two of these components, and none has concurrency, time or failures.",
     ["atomic_bitset.hpp", "atomic.hpp", "bitset.hpp", "cx_queue.hpp", "cx_vector.hpp", "intrusive_list.hpp", "rollover.hpp", "cached.hpp", "panic.hpp"],
     [("atomic exchange of pending events, refused overflow, relinkable nodes, half-range time comparison", "atomic_bitset.hpp, cx_queue.hpp, intrusive_list.hpp, rollover.hpp")],
     [], ["completed work log", "outstanding work at quiescence"])

prop("C23", "A panic reaches the installed handler exactly once, whatever the handler does",
     "Every panic, however raised and with whatever arguments, calls the handler the program installed for it exactly once, before anything after the panic runs, passing the reason and the arguments unchanged and evaluated once. If the handler fails (throws) that failure reaches the code that raised the panic; a panic raised inside the handler, from an interrupt during the handler, or after any number of earlier panics is treated in the same way.",
     ["histories", "fault_sequences", "schedules"],
     "every sequence and nesting of panics, from tasks and interrupts, with handlers that return, throw or panic again, for every handler key and argument list",
     "Existing tests raise one panic at a time with a handler that always returns.",
     ["panic.hpp"],
     [("direct dispatch to the user-specialised handler", "panic.hpp: panic, STDX_PANIC, panic_handler")],
     [], ["handler invocation log"])

prop("C24", "Rearranging tuples loses, duplicates and invents no element, even on failure",
     "Concatenating, extending, filtering, sorting, grouping, splitting, de-duplicating, transforming, folding and multiplying tuples yields exactly the elements the operation names, each holding its original value, in the documented order and grouping. Inputs that the caller keeps are unchanged; inputs that the caller gives up may be moved from, but never so that a result holds a moved-from value. If copying or moving an element fails part-way, the failure reaches the caller, every object already made is destroyed exactly once, and kept inputs are unchanged.",
     ["crash_points", "inputs", "histories"],
     "every failing element copy or move, every mixture of kept and given-up inputs, tuple shapes and chains of operations",
     "Existing tests use elements whose copies cannot fail and mostly inspect values of trivially copyable elements, for which a moved-from element looks intact.",
     ["tuple.hpp", "tuple_algorithms.hpp"],
     [("index tables computed from type lists, then one construction per result element", "tuple_algorithms.hpp: tuple_cat, filter, sort, chunk_by, gather_by, unique, to_sorted_set, to_unsorted_set, cartesian_product_copy"), ("element-wise construction", "tuple.hpp: tuple_impl, fold_left, fold_right, tail, apply")],
     [], ["result elements", "input elements", "object ledger"])

prop("C25", "Bound callables and deferred values call once, with the right arguments",
     "A callable with bound leading or trailing arguments, each time it is called, calls its target exactly once with the bound values and the call's own arguments in their documented places and value categories, and returns the target's result; it owns its bound values, so it can be copied, called again and called from several threads at once. A deferred value runs its function exactly once per conversion and never otherwise, an expression wrapped for use as a possible constant is evaluated exactly once, and neither makes extra copies. If a copy or the function fails, the failure reaches the caller, nothing leaks, and the callable can be called again with its bound values intact unless they were given up by that call.",
     ["crash_points", "histories", "schedules"],
     "every history of binding, copying, moving and calling as plain, const or expiring object, with a copy or the target failing at any point, and every interleaving of concurrent calls",
     "Existing tests call each bound object once or twice with arguments that cannot fail, in one thread.",
     ["functional.hpp", "tuple.hpp", "utility.hpp"],
     [("bound argument tuple forwarded by the object's value category", "functional.hpp: bind_front, bind_back"), ("conversion operator calling the wrapped function", "functional.hpp: with_result_of"), ("expression wrapped in a function that is called once", "utility.hpp: CX_WRAP, CT_WRAP")],
     [], ["target's call log", "object ledger"])

prop("C26", "Cursors and views over a shared buffer touch exactly the bytes they name",
     "A byte cursor moved, aligned, compared, read from and written to in any order is always at the position its moves add up to, reads exactly the bytes there in memory order whatever their alignment and the requested type, and writes exactly those bytes and no others. A view narrowed, converted or re-made in any order covers exactly the elements its narrowing names, seen the same way through size, indexing, both directions of iteration and its bytes. Hence several threads or interrupts may work through their own cursors and views on neighbouring bytes of one buffer without disturbing one another.",
     ["histories", "schedules", "inputs"],
     "every history of moves, reads, writes and narrowings, every division of the buffer between contexts, alignment and interleaving",
     "Existing tests do one or two operations on a fixed, aligned buffer in one thread.",
     ["byterator.hpp", "span.hpp"],
     [("byte copies at the cursor, pointer arithmetic", "byterator.hpp: peek, read, write, advance, advance_to_alignment"), ("pointer and extent arithmetic", "span.hpp: first, last, subspan, as_bytes")],
     [], ["buffer bytes", "cursor position", "view extents"])

prop("C27", "Built arrays and counting cursors are exact, even when building fails",
     "Building an array from given values or from a generating function yields exactly those values, in order and in the common or requested type, running the caller's own generator once per position and in order, and copying only values the caller keeps. If a copy, move, conversion or generator call fails, each earlier one ran exactly once and no later one runs, the failure reaches the caller, everything already built is destroyed exactly once and kept inputs are unchanged. A counting cursor moved and compared in any way stands at the number its moves add up to, so an algorithm driven by it sees each number once and in order until a failure.",
     ["crash_points", "histories", "inputs"],
     "every mixture of kept, constant and given-up values, every failing copy, move, conversion or generator call, every history of cursor moves and every failing visit",
     "Existing tests build arrays of numbers, which cannot fail to copy, and move a cursor once or twice.",
     ["array.hpp", "iterator.hpp"],
     [("one element construction or generator call per position", "array.hpp: make_array"), ("counter arithmetic", "iterator.hpp: counting_iterator")],
     [], ["array elements", "generator's call log", "object ledger", "cursor position"])

prop("C28", "Comparing and accessing tuples goes element by element, even when one fails",
     "Comparing two tuples, or a value with several alternatives, compares the elements themselves, each with its own partner, in order and none after the one that decides, and answers what those comparisons determine: equal when all are, otherwise as the first pair that differs or cannot be ordered. Making a tuple copies only values the caller keeps, and reaching an element by position, type or name gives that element and no other, with the tuple's value category and without copying any. If comparing, copying or moving an element fails, the failure reaches the caller, nothing is compared after it, nothing leaks, and in a whole-tuple assignment every element has its old or its new value.",
     ["crash_points", "inputs", "histories"],
     "every pair of tuples (sizes, element types, nesting, references, names), every place where they first differ or cannot be ordered, every failing comparison, copy or move, and every history of copies, moves and exchanges",
     "Existing tests compare tuples of a few numbers, whose comparisons cannot fail, cannot be unordered and leave no trace of which elements were compared.",
     ["tuple.hpp", "tuple_destructure.hpp"],
     [("short-circuit over the element comparisons", "tuple.hpp: operator== and operator<=>"), ("one accessor per element and value category", "tuple.hpp: get, operator[]"), ("first matching alternative", "tuple.hpp: one_of")],
     [], ["comparison results", "log of compared pairs", "addresses and values of elements", "object ledger"])

prop("C29", "Containers held inside one another keep every inner value exact",
     "Bounded containers, optionals, tuples, list nodes and lazily computed values may hold one another to any depth, and every inner value is always exactly what its own history and the holder's history give it, whether it is reached through the holder, taken out of it or copied with it. Changing, adding or removing one inner value never changes another, and holding, copying or removing one destroys every element it made exactly once. If copying an innermost element fails part-way, the failure reaches the caller and every value held before is unchanged, except that a value being assigned to may be left between old and new.",
     ["histories", "crash_points", "programs"],
     "every combination of holder and inner kind, every history of calls on the holder and on inner values in place, and every failing innermost copy or computation",
     "Existing tests hold numbers in one container at a time; nothing nests them, and a half-copied inner value needs a failure at one particular innermost element.",
     ["cx_vector.hpp", "cx_queue.hpp", "cx_map.hpp", "cx_set.hpp", "cx_multimap.hpp", "optional.hpp", "tuple.hpp", "latched.hpp", "cached.hpp", "intrusive_list.hpp", "intrusive_forward_list.hpp"],
     [("element assignment before the size changes", "cx_vector.hpp: push_back; cx_queue.hpp: push; cx_map.hpp: insert_or_assign"), ("moving the last element into the gap", "cx_map.hpp: erase; cx_set.hpp: erase"), ("empty state chosen by value", "optional.hpp: has_value, emplace"), ("value computed in place", "latched.hpp: populate")],
     [], ["contents of every inner value after every call", "popped and copied values", "object ledger"])

# --- properties that this family of technique does not decide -------------
prop("C30", "Type-level tuple computations give the documented types and positions",
     "The types of tuple elements, the validity of indexing by position, type or key, and the types and element positions computed for rearranged tuples are those documented, for every tuple type.",
     ["programs", "inputs"],
     "every tuple type and every index, key or projection",
     "Existing tests cover a fixed list of types.",
     ["tuple.hpp", "tuple_algorithms.hpp", "tuple_destructure.hpp"],
     [("index computation over type lists", "tuple_algorithms.hpp")])
prop("C31", "Compile-time strings and formatting give the text their arguments determine",
     "Compile-time string concatenation, splitting and formatting produce exactly the text that the equivalent run-time operation would, for every format string and argument list.",
     ["programs", "inputs"],
     "every format string and argument list",
     "Existing tests format a fixed list of strings.",
     ["ct_string.hpp", "ct_format.hpp", "detail/fmt.hpp"],
     [("constant-evaluated formatting", "ct_format.hpp")])
prop("C32", "Bit and byte utilities agree with their arithmetic definitions for every input",
     "Byte swapping, bit counting, packing, unpacking, masking, rotation and saturating conversion return the mathematically defined result for every argument.",
     ["inputs"], "every argument value and type",
     "Existing tests use chosen constants.",
     ["bit.hpp", "numeric.hpp", "utility.hpp"],
     [("bit manipulation functions", "bit.hpp")])
prop("C33", "Messages keep every run-time argument exact and in order, even on failure",
     "Formatting a message gives its fixed text together with exactly the run-time arguments the caller passed, in the order of their places and in the places their names say, including those of messages and self-describing objects used as arguments; arguments known at compile time become text and take no place. Every argument expression and conversion is evaluated once, a value the caller gives up is never copied, one the caller keeps is copied at most once and stays unchanged, and messages made by several threads or interrupts at once never mix. If an argument, a conversion, a copy or a move fails, the failure reaches the caller and everything already made is destroyed exactly once.",
     ["programs", "crash_points", "schedules"],
     "every message shape, every value category and kind of argument, every failing copy, move, conversion or argument, and every interleaving of threads that format at the same time",
     "Existing tests format constants and single numbers; no argument ever fails, is counted or is destroyed observably, and no second thread formats meanwhile.",
     ["ct_format.hpp", "tuple.hpp", "tuple_algorithms.hpp", "utility.hpp"],
     [("collecting arguments of each piece and joining the pieces", "ct_format.hpp: format1, operator+, ct_format"), ("places of named arguments", "ct_format.hpp: named_arg"), ("wrapping of arguments by the macro", "utility.hpp: CX_WRAP; ct_format.hpp: STDX_CT_FORMAT")],
     [], ["text and run-time arguments of the result", "copies, conversions and evaluations", "object ledger"])
prop("C35", "Type-level queries, environments and compile-time values answer for every type",
     "Type traits, type lists, environments and compile-time value wrappers give the documented answer for every type and query, and reject invalid uses at compile time.",
     ["programs"], "every type and query",
     "Existing tests enumerate sample types.",
     ["type_traits.hpp", "env.hpp", "static_assert.hpp", "ct_conversions.hpp", "concepts.hpp"],
     [("template metaprograms", "type_traits.hpp, env.hpp")])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
