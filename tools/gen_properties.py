#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
G = "gmlc/containers/"
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    a = {"files": [G + f for f in files],
         "mechanism": [{"name": n, "where": G + w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

SCHED_WHY = ("The unit tests run a handful of OS-chosen interleavings with large element counts; the guarantee quantifies over every "
             "interleaving, including preemption inside the two-lock hand-over that real runs hit with negligible probability.")
SEQ_WHY = ("The unit tests follow a few fixed call sequences with fixed sizes; the guarantee quantifies over every sequence of calls and every "
           "internal layout (block boundaries, wrap-around, recycled storage) those sequences reach.")

p("C01", "SimpleQueue is a linearizable FIFO delivering each element exactly once",
  "However many threads push, emplace, push whole vectors, pop, peek, clear and read the size of a simple queue at the same time, every result is one that a single first-in-first-out queue would give for some ordering of the calls consistent with real time: nothing is lost, duplicated, invented or reordered, and a vector is queued contiguously in order. The emptiness test never says empty while an element whose push completed has not been taken, and is exact when no other call is in progress. No combination of calls deadlocks.",
  ["schedules", "histories"], "all thread interleavings of all small client programs over push/emplace/pushVector/pop/peek/size/empty/clear/reserve",
  SCHED_WHY, ["SimpleQueue.hpp"],
  [("two-vector push/pull hand-over", "SimpleQueue.hpp:push/emplace/pushVector/pop/checkPullandSwap"), ("empty flag", "SimpleQueue.hpp:queueEmptyFlag")])

p("C02", "BlockingQueue is a linearizable FIFO delivering each element exactly once",
  "However many threads use a blocking queue at the same time, the results of push, emplace, try_pop, pop, timed pop, popOrCall, try_peek, size and clear are those of a single "
  "first-in-first-out queue for some ordering of the calls consistent with real time; each pushed element is delivered to exactly one consumer. A pop attempt comes back empty-handed "
  "(or calls the on-empty function) only if the queue was empty at some moment during the call. The emptiness test never says empty while a completed push is unconsumed, and is exact in quiescence.",
  ["schedules", "histories"], "all thread interleavings of all small client programs over the whole public interface, including timeouts and spurious wake-ups",
  SCHED_WHY + " (The BlockingQueue tests are not even among the stable tests: they hang now and then.)", ["BlockingQueue.hpp"],
  [("slow/fast push paths", "BlockingQueue.hpp:push/emplace"), ("pull side", "BlockingQueue.hpp:try_pop/pop/popOrCall/checkPullAndSwap"), ("peek/size/empty", "BlockingQueue.hpp:try_peek/size/empty")])

p("C03", "BlockingQueue never loses a wake-up and never deadlocks",
  "A consumer blocked on a blocking queue always wakes up and returns an element once there are at least as many elements pushed as consumers waiting for them, without needing any further push; "
  "an un-timed pop therefore never sleeps forever while an element is available, and a timed pop returns an element rather than depending on its timeout when one was available before it went to sleep. "
  "No interleaving of any calls on the queue deadlocks.",
  ["schedules"], "all interleavings of producers and blocking consumers (pop, timed pop, popOrCall, mixed with try_pop and clear), with and without spurious wake-ups",
  "A lost wake-up needs a preemption between a consumer's last check and its wait combined with a stale flag; the tests hit it only as rare hangs and were therefore excluded from the stable set.",
  ["BlockingQueue.hpp"],
  [("conditional notification keyed on the empty flag", "BlockingQueue.hpp:push/emplace"), ("check-then-wait", "BlockingQueue.hpp:pop/popOrCall")])

p("C04", "BlockingPriorityQueue is linearizable: priority first, FIFO per channel",
  "However many threads use a blocking priority queue, the results of push, emplace, pushPriority, emplacePriority, try_pop, pop, timed pop, popOrCall, try_peek and clear are those of a single queue holding a priority channel and a normal channel, "
  "each first-in-first-out, where every removal (after any sleep it had to do first) and peek takes from the priority channel whenever it is non-empty; each element is delivered exactly once. A pop attempt comes back empty-handed only if both channels were empty at some moment during the call. "
  "The emptiness test never says empty while a completed push is unconsumed, and is exact in quiescence.",
  ["schedules", "histories"], "all thread interleavings of all small client programs over the public interface",
  SCHED_WHY, ["BlockingPriorityQueue.hpp"],
  [("priority channel", "BlockingPriorityQueue.hpp:pushPriority/emplacePriority"), ("two-vector normal channel", "BlockingPriorityQueue.hpp:push/emplace/checkPullAndSwap"), ("removal order", "BlockingPriorityQueue.hpp:try_pop/pop/popOrCall/try_peek")])

p("C05", "BlockingPriorityQueue never loses a wake-up and never deadlocks",
  "A consumer blocked on a blocking priority queue always wakes up and returns an element once enough elements have been pushed on either channel, without needing any further push. "
  "No interleaving of normal pushes, priority pushes, blocking, timed and non-blocking removals and clears leaves a consumer asleep while an element is available, and none deadlocks.",
  ["schedules"], "all interleavings of producers on both channels and blocking consumers, with and without spurious wake-ups",
  "A lost wake-up needs a preemption between a consumer's last check and its wait combined with a stale flag; tests see at most a rare hang.",
  ["BlockingPriorityQueue.hpp"],
  [("conditional notification", "BlockingPriorityQueue.hpp:push/pushPriority/emplace/emplacePriority"), ("check-then-wait", "BlockingPriorityQueue.hpp:pop/popOrCall")])

p("C06", "AirLock is a one-slot hand-over: exactly once, and loaders are never stranded",
  "Whatever the number of loading and unloading threads, an air lock behaves as a single slot: a successful load fills an empty slot, a successful unload empties it and returns exactly the value last loaded, "
  "so each loaded value is unloaded at most once and never overwritten before it is unloaded, and the non-blocking calls refuse only if the slot was full (respectively empty) at some moment during the call. "
  "A blocking load completes as soon as the slot is available to it: it never stays asleep while the slot is empty, provided unloads keep emptying it.",
  ["schedules", "histories"], "all interleavings of loaders (blocking and non-blocking), unloaders and status queries, with spurious wake-ups",
  SCHED_WHY, ["AirLock.hpp"],
  [("slot protected by mutex and flag", "AirLock.hpp:try_load/load/try_unload"), ("wake-up of one loader per unload", "AirLock.hpp:try_unload")])

p("C07", "WorkQueue runs every accepted block exactly once and always shuts down",
  "Every unfinished work block accepted by a work queue that is not being closed is executed exactly once, by exactly one worker, and promptly: no worker goes to sleep, waiting for a time limit to expire, while accepted work remains; "
  "with no workers it is executed by the submitting call, and a negative number of workers asks for a default number of at least one. Closing or destroying the queue always terminates, runs no block twice, and afterwards no worker runs anything.",
  ["schedules"], "all interleavings of submitters (single blocks and vectors, every priority), workers, closing and destruction",
  "Tests use real threads and observe results after generous waits, so a missed notification only shows as a delay, and a double execution or shutdown hang needs a specific interleaving.",
  ["WorkQueue.hpp", "SimpleQueue.hpp"],
  [("worker loop sleep/halt protocol", "WorkQueue.hpp:workerLoop"), ("submission and notification", "WorkQueue.hpp:addWorkBlock"), ("shutdown", "WorkQueue.hpp:closeWorkerQueue/~WorkQueue")])

p("C08", "WorkQueue priority: high first, medium and low interleaved by the ratio",
  "Taken one after another, work blocks leave a work queue with every high-priority (or required) block before any other and first-in-first-out within each priority. "
  "While both medium and low blocks are waiting, a low one is served exactly when at least the configured ratio of medium blocks has been served since a low one was last so served; otherwise medium precedes low, and low is served when no medium is waiting. "
  "A non-positive ratio selects the default ratio of four.",
  ["histories", "inputs"], "all submission and removal sequences of bounded length, for all small ratios",
  SEQ_WHY, ["WorkQueue.hpp"],
  [("selection", "WorkQueue.hpp:getWorkBlock"), ("ratio", "WorkQueue.hpp:setPriorityRatio"), ("classification", "WorkQueue.hpp:addWorkBlock")])

p("C09", "The thread-safe containers are free of data races",
  "No interleaving of calls on a simple queue, blocking queue, blocking priority queue, air lock or work queue contains two conflicting unsynchronised accesses to the container's memory or to the elements it transfers, "
  "nor any access to memory already released; everything a producer wrote to an element before handing it over is visible to whoever receives it.",
  ["schedules"], "all interleavings of small client programs; happens-before computed from the locks, atomics, condition variables and thread start/join actually executed",
  "Race detectors under the unit tests only judge the schedules that happened to run.",
  ["SimpleQueue.hpp", "BlockingQueue.hpp", "BlockingPriorityQueue.hpp", "AirLock.hpp", "WorkQueue.hpp"],
  [("locking discipline", "SimpleQueue.hpp:checkPullandSwap"), ("locking discipline", "BlockingQueue.hpp:checkPullAndSwap"), ("acquire/release flag", "AirLock.hpp:loaded"), ("halt flag and queues", "WorkQueue.hpp:workerLoop")])

p("C10", "Circular buffer: exact FIFO of blocks, truthful capacity answers, no overrun",
  "A circular buffer returns exactly the blocks pushed, byte for byte, in order, each once; a push succeeds exactly when the preceding space query for that size says yes, and a refused or undersized operation changes nothing (an undersized pop reports the negative of the needed size). Emptiness and next-block size always describe the oldest unread block, and an empty buffer accepts exactly the positive-sized blocks that fit its capacity together with their four byte header. No operation touches memory outside the buffer.",
  ["histories", "inputs"], "all reachable states of small buffers under all push sizes, pop limits, queries and clears (closed state space), for every small capacity",
  SEQ_WHY, ["CircularBuffer.hpp"],
  [("wrap-around arithmetic", "CircularBuffer.hpp:CircularBufferRaw::push/pop/isSpaceAvailable/nextDataSize")])

p("C11", "Circular buffer contents survive resize, copy, move and assignment",
  "Resizing a circular buffer either keeps every stored block, in order and byte for byte, with the capacity becoming the new one, or fails with an error that leaves the buffer unchanged, and it fails only when shrinking a non-empty buffer. "
  "A copy is equal to and independent of its source; a move transfers the contents and leaves the source empty and reusable by resize, assignment or destruction. "
  "After any of these the buffer still behaves as a first-in-first-out block buffer of its capacity and never leaks, double frees or accesses released memory.",
  ["histories", "inputs"], "all operation sequences up to a bounded depth over push/pop/clear/resize/copy/move/assign on two buffers of small sizes",
  SEQ_WHY, ["CircularBuffer.hpp"],
  [("resize relocation cases", "CircularBuffer.hpp:CircularBuffer::resize"), ("copy/move", "CircularBuffer.hpp:CircularBuffer copy/move members"), ("memory management", "CircularBuffer.hpp:resizeMemory")])

p("C12", "Stack buffer: exact LIFO of blocks with reversal, truthful space, no overrun",
  "A stack buffer returns exactly the blocks pushed, byte for byte, each once, most recent first, where reversing turns the extraction order of the blocks now stored around; a push succeeds exactly when the block is positive-sized and the space query says yes, and failed or undersized operations change nothing. "
  "Count, emptiness and next-block size always describe the stored blocks; the space query is honest, counting eight index bytes per block, and all space is available again whenever the buffer becomes empty. "
  "No operation touches memory outside the buffer.",
  ["histories", "inputs"], "all reachable states of small buffers under all push sizes, pop limits, reversals, queries and clears (closed state space)",
  SEQ_WHY, ["StackBuffer.hpp"],
  [("data growing up, index growing down", "StackBuffer.hpp:StackBufferRaw::push/pop/reverse/isSpaceAvailable/clear")])

p("C13", "Stack buffer contents survive resize, copy, move, swap and assignment",
  "Resizing a stack buffer either keeps every stored block with the capacity becoming the new one, and leaves the added space usable for further pushes, or reports failure (by error or by a false result for a negative size) leaving the buffer unchanged, which happens only when shrinking below the stored data. "
  "A copy equals and is independent of its source; move and swap transfer the contents, and a moved-from buffer is empty and reusable. "
  "After any of these the buffer still behaves as a last-in-first-out block buffer of its capacity and never leaks, double frees or accesses released memory.",
  ["histories", "inputs"], "all operation sequences up to a bounded depth over push/pop/reverse/clear/resize/copy/move/swap/assign on two buffers of small sizes",
  SEQ_WHY, ["StackBuffer.hpp"],
  [("resize relocation", "StackBuffer.hpp:StackBuffer::resize"), ("copy/move/swap", "StackBuffer.hpp:StackBuffer copy/move/swap members"), ("memory management", "StackBuffer.hpp:resizeMemory")])

p("C14", "Stable block vector behaves as a vector for every sequence of operations",
  "After any sequence of construction, push, emplace, pop, clear, shrink, assign, move-assign-from-range, copy and move, a stable block vector holds exactly the sequence a standard vector would hold: same size, emptiness, front, back, indexed access and iteration forwards and backwards, mutable and const; "
  "checked access throws exactly for indices outside the size, and popping an empty vector does nothing. "
  "This holds across block boundaries, recycled blocks and growth of the block table, and moved-from vectors are empty and reusable.",
  ["histories", "inputs", "configurations"], "all operation sequences up to a bounded depth from many starting layouts, for block sizes 1, 2, 4 and 8, plus every size through block-table growth",
  SEQ_WHY, ["StableBlockVector.hpp", "BlockIterator.hpp"],
  [("block table and tail counter", "StableBlockVector.hpp:blockCheck/pop_back/clear/assign"), ("iteration", "StableBlockVector.hpp:begin/end"), ("copy/move", "StableBlockVector.hpp constructors and assignments")])

p("C15", "Stable block vector never moves an element and manages lifetimes exactly",
  "The address of an element of a stable block vector does not change, and the element is never copied, moved or re-created in place, from its insertion until its removal, whatever is appended, popped behind it, shrunk or moved-from-container in between. "
  "Every element is constructed exactly once and destroyed exactly once, no destructor runs on storage holding no element, and all storage is released when the container is destroyed. Element storage is taken from and given back to the allocator the container was declared with, with the same number of elements.",
  ["histories"], "all operation sequences up to a bounded depth from many starting layouts, with every construction, destruction, allocation and release monitored",
  SEQ_WHY, ["StableBlockVector.hpp"],
  [("block recycling", "StableBlockVector.hpp:moveBlocktoAvailable/getNewBlock/shrink_to_fit"), ("teardown", "StableBlockVector.hpp:freeAll/clear/pop_back")])

p("C16", "Stable block deque behaves as a deque for every sequence of operations",
  "After any sequence of construction, push, emplace and pop at both ends, clear, shrink, assign, move-assign-from-range, copy and move, a stable block deque holds exactly the sequence a standard deque would hold: same size, emptiness, front, back, indexed access and iteration forwards and backwards, mutable and const; "
  "checked access throws exactly for indices outside the size, and popping an empty deque does nothing. "
  "This holds across block boundaries, recycled blocks, re-centring and growth of the block table in both directions, and moved-from deques are empty and reusable.",
  ["histories", "inputs", "configurations"], "all operation sequences up to a bounded depth from many starting layouts, for block sizes 1, 2, 4 and 8, plus long runs through re-centring and growth at both ends",
  SEQ_WHY, ["StableBlockDeque.hpp", "BlockIterator.hpp"],
  [("two-ended block table", "StableBlockDeque.hpp:blockCheck/blockCheckFront/pop_back/pop_front/clear"), ("iteration", "StableBlockDeque.hpp:begin/end"), ("sized construction", "StableBlockDeque.hpp:StableBlockDeque(size_t, const X&)")])

p("C17", "Stable block deque never moves an element and manages lifetimes exactly",
  "The address of an element of a stable block deque does not change, and the element is never copied, moved or re-created in place, from its insertion until its removal, whatever is pushed or popped at either end, shrunk or moved-from-container in between. "
  "Every element is constructed exactly once and destroyed exactly once, no destructor runs on storage holding no element, and all storage is released when the container is destroyed. Element storage is taken from and given back to the allocator the container was declared with, with the same number of elements.",
  ["histories"], "all operation sequences up to a bounded depth from many starting layouts, with every construction, destruction, allocation and release monitored",
  SEQ_WHY, ["StableBlockDeque.hpp"],
  [("block recycling and re-centring", "StableBlockDeque.hpp:blockCheck/blockCheckFront/moveBlocktoAvailable/getNewBlock"), ("teardown", "StableBlockDeque.hpp:freeAll/clear")])

p("C18", "Block iterators navigate exactly like integer positions",
  "For every container size and every pair of positions from the beginning to one past the end, advancing or retreating an iterator by any signed distance, by single steps or by jumps, prefix or postfix, lands on the iterator of the target position; "
  "iterators, const or not, compare equal exactly when their positions are equal, and dereferencing yields the element indexing yields. "
  "The begin and end iterators of an empty container are equal.",
  ["inputs", "configurations"], "all sizes, all position pairs, all decompositions into one or two jumps, block sizes 1 to 8, vector and deque, all layouts of the deque ends",
  "Tests check a few offsets at one block size; the arithmetic has boundary cases at every block edge and sign.",
  ["BlockIterator.hpp", "StableBlockVector.hpp", "StableBlockDeque.hpp"],
  [("offset normalisation", "BlockIterator.hpp:check/checkNeg"), ("comparison", "BlockIterator.hpp:operator==/checkEquivalence")])

MAPWHY = ("The unit tests run a few insert/find/remove scripts; consistency between the storage and its key index must hold after every sequence of inserts, assignments, aliasing keys and removals.")
p("C19", "MappedVector: keys and storage stay consistent under every operation sequence",
  "After any sequence of inserts, insert-or-assigns, keyless inserts, added search terms, removals by key or index, value transformations and clears, a mapped vector holds exactly the elements a plain list with a key table would: insert refuses a key in use and otherwise appends, insert-or-assign replaces in place, an added term never overrides, every key finds exactly the element it was bound to, at its current index, and unbound keys find nothing. A removal by key or index deletes the element and closes the gap, except that stable storage deletes only a last element and leaves any other in place. Either way every key of that element, and no other key, is forgotten.",
  ["histories", "inputs", "configurations"], "all operation sequences up to a bounded depth over a small key set (hashable and ordered key types), stable and relocatable storage",
  MAPWHY, ["MappedVector.hpp", "MapTraits.hpp", "StableBlockVector.hpp"],
  [("key index maintenance", "MappedVector.hpp:insert/insert_or_assign/addSearchTermForIndex/remove/removeIndex"), ("lookup", "MappedVector.hpp:find")])

p("C20", "StringMappedVector: names and storage stay consistent under every sequence",
  "After any sequence of inserts, insert-or-assigns, unnamed inserts, removals by name or index, value transformations and clears, a string mapped vector holds exactly the elements a plain list with a name table would: insert refuses a name in use and otherwise appends, insert-or-assign replaces in place, every name (including the empty one) finds exactly the element it was bound to, given names may be temporary strings, and unbound names find nothing. Removing an element deletes it and closes the gap, except that stable storage deletes only a last element and leaves any other in place. Either way the element's name, and no other name, is forgotten and can be used again.",
  ["histories", "inputs", "configurations"], "all operation sequences up to a bounded depth over a small name set",
  MAPWHY, ["StringMappedVector.hpp", "StableBlockVector.hpp"],
  [("name index maintenance", "StringMappedVector.hpp:insert/insert_or_assign/remove/removeIndex"), ("name storage", "StringMappedVector.hpp:names")])

p("C21", "MappedPointerVector: keys and owned objects stay consistent under every sequence",
  "After any sequence of inserts (constructing or adopting a pointer), insert-or-assigns, keyless inserts, added search terms, removals by key or index and clears, a mapped pointer vector holds exactly the objects a plain list with a key table would: insert refuses a key in use, insert-or-assign replaces the object in place, an added term never overrides, and every key finds exactly the object it was bound to, at its current index. "
  "A removal destroys that object, closes the gap, and forgets every key of it and no other key; other objects are never destroyed or relocated. "
  "Searches for unbound keys and out-of-range indexing yield null.",
  ["histories", "inputs"], "all operation sequences up to a bounded depth over a small key set",
  MAPWHY, ["MappedPointerVector.hpp"],
  [("key index maintenance", "MappedPointerVector.hpp:insert/insert_or_assign/addSearchTermForIndex/remove/removeIndex"), ("lookup", "MappedPointerVector.hpp:find/operator[]")])

p("C22", "DualMappedVector: both key spaces and storage stay consistent",
  "After any sequence of inserts with both, either or no key, insert-or-assigns, added search terms of either kind, removals by either key or by index, value transformations and clears, every key of either kind finds exactly the element it was last bound to, at its current index, and unbound keys find nothing. "
  "Insert refuses when the only key given, or both keys given, are in use, and otherwise appends; insert-or-assign leaves each given key naming an element with the new value at the returned index; an added term never overrides an existing one. "
  "Removing an element forgets all of its keys in both spaces and no others, deleting it and closing the gap (with stable storage only if it is last).",
  ["histories", "inputs", "configurations"], "all operation sequences up to a bounded depth over small key sets in both spaces, stable and relocatable storage; the binding of an already used key in a two-key insert with one collision is left open",
  MAPWHY, ["DualMappedVector.hpp", "StableBlockVector.hpp"],
  [("double index maintenance", "DualMappedVector.hpp:insert/insert_or_assign/addSearchTerm/removeIndex/remove")])

p("C23", "DualStringMappedVector: names, keys and storage stay consistent",
  "After any sequence of inserts with name and key, either or neither, insert-or-assigns, added search terms of either kind, removals by name, key or index, value transformations and clears, every name and every key finds exactly the element it was last bound to, and unbound ones find nothing; given names may be temporary strings. "
  "Insert refuses when the only identifier given, or both given, are in use, and otherwise appends; insert-or-assign leaves each given identifier naming an element with the new value at the returned index; an added term never overrides an existing one. "
  "Removing an element forgets all its names and keys and no others, deleting it if it is the last.",
  ["histories", "inputs", "configurations"], "all operation sequences up to a bounded depth over small name and key sets; the binding of an already used identifier in an insert with one collision is left open",
  MAPWHY, ["DualStringMappedVector.hpp", "StableBlockVector.hpp"],
  [("double index maintenance", "DualStringMappedVector.hpp:insert/insert_or_assign/addSearchTerm/removeIndex/remove"), ("name storage", "DualStringMappedVector.hpp:names")])

p("C24", "DualMappedPointerVector: both key spaces and owned objects stay consistent",
  "After any sequence of inserts (constructing or adopting a pointer) with both or either key, insert-or-assigns, removals by either key or by index and clears, every key finds exactly the object it was last bound to, at its current index, and unbound keys and out-of-range indices yield null. "
  "Insert refuses when the only key given, or both keys given, are in use, and otherwise appends; insert-or-assign leaves each given key naming the new object at the returned index. "
  "Removing an object destroys it, closes the gap, and forgets its keys in both spaces and no others; other objects are never destroyed or relocated.",
  ["histories", "inputs"], "all operation sequences up to a bounded depth over small key sets in both spaces; the binding of an already used key in a two-key insert with one collision is left open",
  MAPWHY, ["DualMappedPointerVector.hpp"],
  [("double index maintenance", "DualMappedPointerVector.hpp:insert/insert_or_assign/removeIndex/remove")])

p("C25", "Mapped containers: copies are independent, moves carry everything over",
  "A copy of a mapped container answers every search and index query as its source did, stays valid after the source is changed or destroyed, and neither sees changes of the other. "
  "A moved-to container answers everything as the source did before, with the elements of pointer and stable variants at their old addresses, and the source can be cleared, reused, assigned or destroyed safely.",
  ["histories"], "all operation sequences up to a bounded depth interleaving mutations with copy/move construction and assignment between two containers, every mapped container type and storage kind",
  "Hardly any test copies or moves a mapped container; independence must hold for every later history of both objects.",
  ["MappedVector.hpp", "StringMappedVector.hpp", "MappedPointerVector.hpp", "DualMappedVector.hpp", "DualStringMappedVector.hpp", "DualMappedPointerVector.hpp"],
  [("name views into owned strings", "StringMappedVector.hpp:names/lookup"), ("name views into owned strings", "DualStringMappedVector.hpp:names/lookup1"), ("defaulted copy/move", "MappedPointerVector.hpp")])

p("C26", "Throwing elements and throwing work leave containers and workers intact",
  "If constructing an element throws while it is being appended or prepended to a stable block vector or deque, the container is left exactly as it was before the call: same size, elements, addresses and iteration, with nothing leaked or destroyed twice, and it remains fully usable; a container constructor that fails this way leaks nothing either. If the task of a work block throws, the worker running it survives, later work still runs, and the exception is delivered to whoever asks for that task's result.",
  ["fault_sequences", "histories"], "a failure injected at every single element construction of every bounded operation sequence, from every starting layout",
  "No unit test makes an element constructor throw; the guarantee quantifies over which construction fails in which state.",
  ["StableBlockVector.hpp", "StableBlockDeque.hpp", "WorkQueue.hpp"],
  [("count updated around placement construction", "StableBlockVector.hpp:push_back/emplace_back"), ("count updated around placement construction", "StableBlockDeque.hpp:push_back/push_front/emplace_back/emplace_front"), ("packaged task", "WorkQueue.hpp:WorkBlock::execute")])

p("C27", "Queues keep contents, order and status through move, clear and destruction",
  "For every history of single-threaded calls, the simple queue, blocking queue, blocking priority queue and air lock behave exactly like their sequential models, including emptiness, size and peek after every call: moving a queue (by construction or assignment) transfers all its elements in order and leaves the source an empty usable queue, clearing empties it, capacities never affect behaviour, and move-only element types work. "
  "Elements still queued at destruction or clearing are destroyed exactly once.",
  ["histories"], "all single-threaded operation sequences up to a bounded depth over two queues, including move construction/assignment in every internal split of the contents",
  SEQ_WHY, ["SimpleQueue.hpp", "BlockingQueue.hpp", "BlockingPriorityQueue.hpp", "AirLock.hpp"],
  [("move members", "SimpleQueue.hpp:SimpleQueue(SimpleQueue&&)/operator="), ("move members", "BlockingQueue.hpp"), ("move members and clear", "BlockingPriorityQueue.hpp")])

p("C28", "mapFind returns the mapped value exactly when the key is present",
  "Looking a key up in an ordered or unordered map returns the value stored under that key if there is one, and otherwise the caller's default (or an empty result when no default was given). "
  "The map and the default are never modified, and the result is an independent value.",
  ["inputs"], "all maps over a small key/value universe, all keys, with and without default, ordered and unordered",
  "No test or source file includes this header at all.",
  ["mapOps.hpp"], [("lookup helpers", "mapOps.hpp:mapFind")])

p("C29", "A work block runs its task once per arming and delivers its result",
  "A work block executes its current task exactly once however often it is executed, is reported finished exactly from then until it is reset or given new work, and delivers the task's value or exception through its future (and the value through its accessor). Resetting or updating the work arms it for exactly one further execution with a fresh result; executing a block that has no task is harmless and marks it finished. Moving a block carries its task, result and status over, and submitting a missing or already finished block to a work queue has no effect.",
  ["histories"], "all operation sequences up to a bounded depth over construct/execute/reset/update/query on value and void blocks",
  "Tests exercise one or two fixed sequences (construct, run, reset, run); a block constructed without work is never tested.",
  ["WorkQueue.hpp"],
  [("finished/loaded state machine", "WorkQueue.hpp:WorkBlock::execute/reset/updateWorkFunction/updateTask"), ("submission filter", "WorkQueue.hpp:addWorkBlock")])

p("C30", "A queue call that fails with an exception changes nothing and blocks nobody",
  "If a call on the simple queue, blocking queue, blocking priority queue or air lock ends in an exception (copying, moving or constructing an element fails, memory runs out, or the caller's fallback function throws), the exception reaches the caller, no element already stored is lost, duplicated or reordered, nothing is leaked, and no internal lock stays held. "
  "A failed insertion adds nothing, a fallback that throws consumes nothing, and other threads' sleeping or concurrent operations behave as though the failed call had never been made: no wake-up is lost because of it.",
  ["fault_sequences", "schedules"], "a failure injected at every element construction, copy and allocation of every bounded single-threaded history over two queues, and every interleaving of two to three threads in which some calls fail",
  "No unit test makes an element or a callback throw, or lets an allocation fail; the state left behind depends on which step of which call failed and on who was waiting.",
  ["SimpleQueue.hpp", "BlockingQueue.hpp", "BlockingPriorityQueue.hpp", "AirLock.hpp"],
  [("insertion paths", "SimpleQueue.hpp:push/emplace/pushVector"), ("insertion and fallback paths", "BlockingQueue.hpp:push/emplace/popOrCall"), ("insertion and fallback paths", "BlockingPriorityQueue.hpp:push/emplace/pushPriority/emplacePriority/popOrCall"), ("load", "AirLock.hpp:load/try_load")])

p("C31", "A mapped container survives an operation that fails with an exception",
  "If an insertion, removal, assignment, added search term, copy construction or visiting function of any mapped container ends in an exception, the container stays consistent and usable: every element stored before is still there at its index (with its value, and at its address for pointer and stable variants), every key bound before still finds the same element, no key finds anything that is not stored, and nothing is leaked or destroyed twice. "
  "If it is the element that could not be made, nothing changes at all; if memory for a key runs out, the new element may be present without that key. A removal that fails for lack of memory changes nothing. A visiting function that throws leaves the elements it has not visited untouched.",
  ["fault_sequences", "histories"], "a failure injected at every element construction, every memory allocation and every call of the user's function of every bounded operation sequence, in every mapped container type and storage kind",
  "No unit test lets an element constructor, an allocation or a visiting function fail; the order in which element storage, name storage and the lookups are updated only matters then.",
  ["MappedVector.hpp", "StringMappedVector.hpp", "MappedPointerVector.hpp", "DualMappedVector.hpp", "DualStringMappedVector.hpp", "DualMappedPointerVector.hpp"],
  [("element before key", "MappedVector.hpp:insert/insert_or_assign"), ("element, name, keys", "DualStringMappedVector.hpp:insert/insert_or_assign/addSearchTerm"), ("element, name, key", "StringMappedVector.hpp:insert/insert_or_assign"), ("element before keys", "DualMappedPointerVector.hpp:insert/insert_or_assign")])

p("C32", "Running out of memory leaves buffers and stable block containers intact",
  "When memory cannot be allocated, inserting one element into a stable block vector or deque, or constructing, resizing or copy-assigning a circular or stack buffer, fails with an exception and leaves everything as it was: same contents, order, capacity, and element addresses; a constructor that fails leaks nothing, and a failed range assignment leaves a valid sequence of old and new elements. "
  "Removing elements (pop, clear) never fails for lack of memory. The object works normally once memory is available again.",
  ["fault_sequences", "histories"], "a failure of every allocation of every operation, in every state reachable by bounded operation sequences",
  "No unit test lets an allocation fail; what is left behind depends on which pointer had been updated before the allocation was attempted.",
  ["StableBlockVector.hpp", "StableBlockDeque.hpp", "CircularBuffer.hpp", "StackBuffer.hpp"],
  [("block and table allocation", "StableBlockVector.hpp:blockCheck/moveBlocktoAvailable/getNewBlock"), ("block and table allocation", "StableBlockDeque.hpp:blockCheck/blockCheckFront/moveBlocktoAvailable"), ("resizeMemory", "CircularBuffer.hpp:resizeMemory/operator="), ("resizeMemory", "StackBuffer.hpp:resizeMemory/operator=")])

p("C33", "A work queue survives running out of threads or memory",
  "If not all workers of a work queue can be started, or memory runs out while it is constructed, the construction fails with an exception after the workers already started have ended, and nothing is leaked. Submitting a block or a vector of blocks while memory runs out either fails with an exception, and then none of these blocks is ever executed by the queue, or succeeds, and then each is executed exactly once as usual; blocks accepted before or after are not affected. "
  "Closing and destroying a work queue needs no memory: it always ends its workers. A work block that is given new work which cannot be copied, or for which there is no memory, keeps its previous task, result and status.",
  ["fault_sequences", "schedules"], "a failure at every thread start and every allocation of construction, submission, closing and update, in all interleavings with running workers and other submitters, and in all bounded sequences of block operations",
  "No unit test lets a thread start or an allocation fail; whether workers are left behind or the process is terminated depends on which step failed and what the workers were doing.",
  ["WorkQueue.hpp", "SimpleQueue.hpp"],
  [("starting the workers", "WorkQueue.hpp:WorkQueue"), ("submission", "WorkQueue.hpp:addWorkBlock"), ("shutdown", "WorkQueue.hpp:closeWorkerQueue/~WorkQueue"), ("update", "WorkQueue.hpp:WorkBlock::updateWorkFunction")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
