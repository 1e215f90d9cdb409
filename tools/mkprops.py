#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

T = "The test programs run a few fixed allocation patterns at one heap geometry and mostly check only that they terminate"

p("C01", "Reachable objects keep identity, shape and contents across collections",
  "At every point of every single-threaded program, the object graph reachable from the registered roots is exactly the one the program built: every pointer read back leads to the object that was stored, aliased pointers stay aliased and distinct objects stay distinct, and every data member and array element holds the last value written. This holds however many minor, promoting and full (compacting) collections happen in between and wherever objects fall relative to card and pool boundaries. No collection may crash, hang, or drop, duplicate or merge objects.",
  ["programs", "histories", "inputs"], "All sequences of allocation, read, write, root and collection operations; all object shapes and sizes; all heap geometries (pool size, card size, number of generations).",
  T + "; no test compares the graph with a model after arbitrary mutation and compaction.",
  ["collector/gembc.c", "ggggc/gc-gembc.h", "allocator.c"],
  [("copying minor collection", "collector/gembc.c: ggggc_collect0"), ("mark-compact full collection with break tables", "collector/gembc.c: ggggc_collectFull, ggggc_countUsed, ggggc_compact, ggggc_postCompact"), ("promotion allocator", "collector/gembc.c: ggggc_mallocGen1")],
  ["GGC_RP/GGC_RD/GGC_RAP/GGC_RAD results"],
  [("break table", "old-to-new address map of a compacted pool", "struct GGGGC_Pool"), ("generation pools", "lists of pools per generation", "ggggc_gens, ggggc_gen0")])

p("C02", "A young object stored into an old object survives minor collections",
  "When a program stores a reference to a recently allocated object into any object, array element or descriptor user pointer of any age through the write macros, the referenced object and everything it reaches stays alive and correct even if that stored reference is the only path to it. This holds for every position of the holder within its memory area, for repeated and overwritten stores, and across any number of following minor, promoting and full collections. Reading a reference back through the read macros always yields the object last stored there.",
  ["programs", "histories"], "All interleavings of stores into objects of all ages with collections of all depths; all positions of the holder relative to card boundaries; 2 to 5 generations.",
  T + "; tests/remember.c is not even in the test run, and only exercises one store position.",
  ["ggggc/gc-gembc.h", "collector/gembc.c"],
  [("write barrier marking the holder's card", "ggggc/gc-gembc.h: GGGGC_WP"), ("remembered-set scan from the first object of a card", "collector/gembc.c: ggggc_collect0"), ("card metadata upkeep", "collector/gembc.c: ggggc_mallocGen1, ggggc_postCompact")],
  ["GGC_RP/GGC_RAP/GGC_RUP results"],
  [("remembered set", "dirty cards per pool", "pool->remember"), ("first-object table", "where scanning a card starts", "pool->firstObject")])

p("C03", "Observable program behaviour is independent of the build configuration",
  "A program that only uses the public macros observes the same values (graph shape, data, lengths, finalizer behaviour allowed by the documentation aside) under every supported configuration: either collector, any number of generations, any pool and card size, any pool source (aligned allocation, plain allocation, program break), threads enabled or not, constructor/cleanup extensions enabled or not, debug checks enabled or not, compiled as C or as C++. Every supported combination of feature switches compiles and runs such a program to completion.",
  ["configurations", "programs"], "All programs over the public API crossed with all supported compile-time configurations and feature combinations.",
  "The test matrix runs ten configurations one feature at a time with fixed programs and compares nothing between them; geometry options, plain C without extensions and feature combinations are never built.",
  ["ggggc/gc.h", "ggggc/gc-gembc.h", "ggggc/gc-portablems.h", "allocator.c", "collector/gembc.c", "collector/portablems.c", "threads.c", "roots.c"],
  [("configuration macros", "ggggc/gc.h"), ("collector selection", "ggggc/gc.h: GGGGC_COLLECTOR"), ("extension-free fallbacks", "ggggc/gc.h: GGC_POP, GGGGC_DESCRIPTOR_CONSTRUCTOR, return")],
  ["digest of everything the program reads"])

p("C04", "The portable mark-and-sweep collector preserves all reachable objects in place",
  "Under the portable mark-and-sweep collector, for every program, the graph reachable from the registered roots is exactly the one the program built, and a reachable object's address never changes. Memory handed out by the allocator never overlaps a reachable object, whatever sequence of sweeping, coalescing, splitting and heap growth preceded it. Unreachable memory of any shape becomes available again and is never mistaken for an object.",
  ["programs", "histories", "inputs"], "All operation sequences and object sizes under the mark-and-sweep collector; all free-list states.",
  "One of ten configurations uses this collector, with the same fixed programs and no check of contents after reuse.",
  ["collector/portablems.c", "ggggc/gc-portablems.h", "allocator.c"],
  [("marking", "collector/portablems.c: mark"), ("sweeping and coalescing", "collector/portablems.c: sweep, clearFreeList"), ("first-fit splitting", "collector/portablems.c: ggggc_mallocRaw")],
  ["object addresses and contents"],
  [("free list", "thread-local list of free chunks", "freeList")])

p("C05", "Unreachable memory is reclaimed, so bounded live data needs bounded heap",
  "Objects that are no longer reachable, including cyclic garbage, garbage that had been promoted, and garbage referenced only from other garbage, are eventually reclaimed and their memory reused. A program whose live data is bounded can allocate without limit while the memory the collector takes from the system stays bounded in terms of the live data. This holds for both collectors and any number of generations.",
  ["histories", "programs"], "All long-running allocation histories with a bounded live set; all garbage shapes.",
  "Tests terminate after a fixed amount of allocation on a machine with ample memory; none measures the memory taken from the system.",
  ["collector/gembc.c", "collector/portablems.c", "allocator.c"],
  [("pool reset and reuse after collection", "collector/gembc.c: ggggc_collect0"), ("compaction", "collector/gembc.c: ggggc_compact"), ("heap growth heuristic", "allocator.c: ggggc_expandPoolList"), ("sweep", "collector/portablems.c: sweep")],
  ["memory requested from the system allocator"])

p("C06", "Newly allocated objects are zeroed, aligned, full-sized and disjoint",
  "Every newly allocated object, array or descriptor-allocated object has all its pointer members NULL and all its data zero, whatever previously occupied that memory. It is word-aligned, at least as large as its type requires, and overlaps no other live object. This includes objects allocated right after collections, after reuse of freed memory, and at the end of memory areas.",
  ["histories", "inputs"], "All allocation histories and all sizes; all previous contents of the memory.",
  T + "; none inspects fresh memory after reuse.",
  ["collector/gembc.c", "collector/portablems.c", "allocator.c"],
  [("zero fill on allocation", "ggggc_mallocRaw in both collectors"), ("bump/free-list limits", "ggggc_mallocRaw in both collectors")],
  ["raw contents and addresses of new objects"])

p("C07", "Only declared pointer members are traced and updated",
  "The collector follows and rewrites exactly the words a type or user-made descriptor declares as pointers: declared pointers at every offset are honoured, however wide the object, and every other word keeps its exact bit pattern even when it looks like a heap address. A value stored only in a data member or data array never keeps an object alive. This holds for statically declared types, for pointer and data arrays, and for descriptors created at run time with any size and pointer layout.",
  ["inputs", "programs"], "All object sizes and pointer layouts (up to several description words), with adversarial data values.",
  "The tests only use types of a few words with pointers at low offsets and never store address-like data.",
  ["allocator.c", "ggggc/gc.h", "collector/gembc.c", "collector/portablems.c"],
  [("layout bitmaps", "allocator.c: ggggc_allocateDescriptorL, ggggc_allocateDescriptorPA, ggggc_allocateDescriptorDA"), ("bitmap-driven scanning", "ADD_OBJECT_POINTERS, ggggc_postCompact, mark"), ("type declaration macros", "ggggc/gc.h: GGC_PTR, GGC_END_TYPE")],
  ["GGC_RD/GGC_RAD values; reclamation of referents"])

p("C08", "Arrays of any length keep their length and every element",
  "A pointer array or data array of any element count that fits the configured memory area, including zero, one, and sizes near the maximum, reports the requested length for its lifetime and stores each element independently of its neighbours. Element contents survive allocation pressure and collections of every kind, for every supported element type and size. Requesting many different array sizes in any order never corrupts anything.",
  ["inputs", "histories"], "All element types, counts and orders of allocation; arrays of all sizes up to the memory-area capacity.",
  "Tests only make a handful of short arrays.",
  ["allocator.c", "collector/gembc.c", "collector/portablems.c", "ggggc/gc.h"],
  [("array allocation", "allocator.c: ggggc_mallocPointerArray, ggggc_mallocDataArray"), ("per-size descriptor table", "allocator.c: ggggc_allocateDescriptorDescriptor")],
  ["length member and GGC_RAP/GGC_RAD"],
  [("descriptor-descriptor table", "descriptors shared by size", "ggggc_descriptorDescriptors")])

p("C09", "Registered roots are exactly honoured in every push form and nesting",
  "Every variable registered by any of the push macros (each arity, automatic, manual and counted forms) is treated as a root and updated when its object moves, for exactly as long as its scope or until popped, at every nesting depth and whether the scope is left at its end or by an early return. Leaving scopes in order always restores the enclosing scope's registrations. A variable that was pushed and then globalized stays a root for the rest of the thread's life, even when globalized from deep within other scopes.",
  ["programs", "histories"], "All call trees and push forms, arities, exit paths and globalization points.",
  "Tests use few arities, no manual or counted forms and no late globalization.",
  ["ggggc/push.h", "pushgen.c", "ggggc/gc.h", "roots.c"],
  [("generated push macros", "ggggc/push.h, pushgen.c"), ("automatic pop", "ggggc/gc.h: ggggc_pop, GGGGC_LocalPush"), ("globalization", "roots.c: ggggc_globalize")],
  ["values of the registered variables"],
  [("pointer stack", "per-thread stack of registered variables", "ggggc_pointerStack")])

p("C10", "C++ smart pointers, array wrappers and members behave like rooted references",
  "In C++, rooted smart pointers and array wrappers keep their objects alive and current through construction, copying, assignment, comparison, conversion and destruction in nested scopes. Reading and assigning members and array elements through the C++ member syntax has the same effect as the read and write macros, including keeping a newly stored object alive when the holder is old. The object graph observed through the C++ interface always equals the one the program built.",
  ["programs", "histories"], "All sequences of C++-level operations with collections in between.",
  "The single C++ test builds one graph and walks it.",
  ["ggggc/gc.h"],
  [("smart pointer classes", "ggggc/gc.h: GGC<T>, GGCPA, GGCDA"), ("member proxies", "ggggc/gc.h: GGC_MPTR, GGC_MDATA (C++)")],
  ["values read through the C++ interface"])

p("C11", "A finalizer never runs early, twice, or on a damaged object",
  "A finalizer is never run while its object is reachable from any root, whatever the object's age and whatever mixture of collections occurs. When it does run, it runs once per registration, with the object it was registered for, intact, with everything that object references intact too. Finalizers may allocate, collect, register further finalizers, or store the object somewhere reachable again, without corrupting the heap.",
  ["histories", "programs"], "All sequences of finalizer registration, mutation, unlinking and collection, including reentrant finalizers and resurrection.",
  "No existing test registers a finalizer at all; the feature is only compiled.",
  ["allocator.c", "collector/gembc.c", "collector/portablems.c", "doc/FINALIZERS.md"],
  [("per-pool finalizer lists and survival test", "collector/gembc.c: FINALIZER_POOL; collector/portablems.c: ggggc_collect0"), ("running", "allocator.c: ggggc_runFinalizers")],
  ["finalizer invocations and their arguments"],
  [("finalizer list", "pending registrations", "pool->finalizers")])

p("C12", "Every finalizer of an unreachable object eventually runs exactly once",
  "After an object with registered finalizers becomes unreachable, full collections run each registered finalizer exactly once, waiting at most for the finalizers of objects that refer to it; no registration is ever lost, whatever collections happened between registration and death and whatever ages the object and its registration had. After finalization an object that was not made reachable again is reclaimed by a later collection, and is not finalized again.",
  ["histories"], "All sequences of registration, ageing, unlinking and collection, with many registrations spread over many memory areas.",
  "No existing test registers a finalizer.",
  ["allocator.c", "collector/gembc.c", "collector/portablems.c", "doc/FINALIZERS.md"],
  [("finalizer lists carried through collections", "collector/gembc.c: ggggc_collect0, ggggc_collectFull; collector/portablems.c: ggggc_collect0")],
  ["count of finalizer invocations"])

p("C13", "Internally tagged values are never followed or altered",
  "With internal tagging, any unaligned value stored in a pointer member, pointer array element, registered root, or JIT stack word is kept bit-for-bit and never followed, while aligned non-NULL values in the same places are followed and updated. A word may change between tagged and untagged any number of times across collections.",
  ["histories", "inputs"], "All tag patterns and sequences of tagged/untagged stores in every kind of pointer location.",
  "The feature is compiled in the test matrix but no test stores a tagged value.",
  ["collector/gembc.c", "collector/portablems.c", "doc/TAGGING.md"],
  [("tag test before following", "IS_TAGGED in both collectors")],
  ["values read back"])

p("C14", "Externally tagged words are followed exactly when their tag is even",
  "With external tagging, a word whose descriptor tag is even is traced and updated as a pointer and a word whose tag is odd is left bit-for-bit alone, for every tag value a user may choose, every object size and every mix of tags. Ordinary types, arrays and pointer-layout descriptors keep working in this mode. A descriptor's tags can be read back unchanged for as long as an object uses it.",
  ["inputs", "histories"], "All tag vectors over the user-available tag values, all sizes, and all collection histories.",
  "The feature is compiled in the test matrix but no test creates a tagged descriptor.",
  ["allocator.c", "collector/gembc.c", "collector/portablems.c", "doc/TAGGING.md"],
  [("tagged descriptor allocation", "allocator.c: ggggc_allocateDescriptorT, ggggc_allocateDescriptorL"), ("tag-driven scanning", "ADD_OBJECT_POINTERS and ggggc_postCompact in collector/gembc.c; mark in collector/portablems.c")],
  ["values read back; descriptor tags"])

p("C15", "Words on the JIT pointer stack are roots, in every tagging mode",
  "With the JIT pointer stack enabled, every pointer in the in-use part of a thread's JIT stack keeps its object alive and is updated when the object moves, as the stack grows and shrinks and collections occur. With external tagging the tag words describe the following words as documented, including short groups ended by the end-of-tags marker, and odd-tagged words are untouched. With internal tagging, unaligned words are untouched.",
  ["histories", "configurations"], "All stack growth/shrink histories, word/tag contents, and collection points, in the three tagging modes.",
  "The feature is compiled in the test matrix but no test uses it.",
  ["collector/gembc.c", "collector/portablems.c", "doc/JITPSTACK.md", "globals.c"],
  [("JIT stack scan and update", "collector/gembc.c: ggggc_collect0, ggggc_collectFull; collector/portablems.c: ggggc_collect0")],
  ["contents of the JIT stack words and the objects they reach"],
  [("JIT pointer stack", "thread-local in-use range", "ggc_jitPointerStack, ggc_jitPointerStackEnd")])

p("C16", "Collections during multi-threaded mutation preserve every thread's objects",
  "While several threads allocate, mutate private and shared objects and trigger collections at any time, each thread always finds its own roots and everything reachable from them, including objects handed over by other threads, exactly as stored. No collection starts before every running thread has stopped at a safe point, and every thread resumes afterwards; no schedule deadlocks or livelocks the collector. This is the same with every thread back end the library has.",
  ["schedules", "programs"], "All interleavings of threads over allocation, safe points, locks and collection triggers.",
  "One test runs independent threads under whatever schedule the machine gives, on a heap large enough that collections rarely coincide with anything.",
  ["threads.c", "threads/posix.c", "threads/windows.c", "threads/macosx.c", "collector/gembc.c", "collector/portablems.c", "globals.c"],
  [("stop-the-world barrier protocol", "ggggc_collect0, ggggc_yield"), ("world barrier lock", "ggggc_worldBarrierLock"), ("roots handover", "ggggc_rootsLock")],
  ["per-thread model of the heap; progress"],
  [("thread count", "threads taking part in stopping the world", "ggggc_threadCount")])

p("C17", "Threads start, finish and are joined safely at any time relative to collections",
  "A thread receives exactly the argument it was started with, and objects it allocated that are still reachable from other threads after it ends, and types or descriptors it was the first to use, stay valid. Starting, finishing and joining threads at any point relative to other threads' allocations, collections and blocking never deadlocks or loses roots. Memory of finished threads is reused, so starting and finishing threads without end needs bounded memory and a bounded number of system handles. A thread that cannot be started is reported and leaves no trace.",
  ["schedules", "histories"], "All schedules of thread creation, exit and join against allocation, collection and blocking in other threads.",
  "The threaded test joins threads that keep nothing alive afterwards.",
  ["threads.c", "threads/posix.c", "threads/windows.c", "threads/macosx.c", "allocator.c"],
  [("thread wrapper and exit protocol", "threads.c: ggggcThreadWrapper"), ("creation", "threads/posix.c: ggc_thread_create"), ("pool return", "allocator.c: ggggc_freeGeneration")],
  ["objects published by finished threads; progress"])

p("C18", "Blocking operations let collection proceed and keep the blocked thread's roots",
  "While a thread is blocked in a mutex lock, semaphore wait, barrier wait or join provided by the library, other threads can collect without waiting for it, and its registered roots (including its JIT stack) are honoured and updated, so everything is intact when it wakes. The operations provide their usual synchronisation: mutual exclusion, semaphore counting, barrier rendezvous, and join after exit. No schedule of blocking and waking against collections deadlocks. This is the same with every thread back end the library has.",
  ["schedules", "histories"], "All schedules of blocking operations against collections and wake-ups.",
  "The only blocking operation in the tests is join, from a thread with trivial roots.",
  ["threads.c", "threads/posix.c", "ggggc/threads-posix.h", "threads/windows.c", "ggggc/threads-windows.h", "threads/macosx.c", "ggggc/threads-macosx.h"],
  [("pre/post blocking protocol", "threads.c: ggc_pre_blocking, ggc_post_blocking"), ("wrapped primitives", "threads/posix.c, ggggc/threads-posix.h")],
  ["contents after wake-up; mutual exclusion and counting observations"],
  [("blocked roots lists", "roots and pools of blocked threads", "ggggc_blockedThreadPointerStacks, ggggc_blockedThreadPool0s")])

p("C19", "Lists behave like sequences",
  "For every sequence of list operations (push, unshift, shift, push-list, unshift-list, insert-after, insert-list-after, to-array) a list holds exactly the elements a sequence model predicts, in order, with matching length, and joining a list into another leaves the source empty. Any operation may follow any other, including on empty lists and at either end. Results are unaffected by collections at any allocation.",
  ["histories", "inputs"], "All operation sequences over several lists sharing elements, with collections at every allocation.",
  "tests/lists.c does a few pushes and walks the result.",
  ["collections/list.c", "ggggc/collections/list.h"],
  [("list operations", "collections/list.c"), ("typed wrappers", "ggggc/collections/list.h: GGC_LIST")],
  ["elements by traversal, by shift and by to-array; length"])

p("C20", "Maps behave like finite maps",
  "For every sequence of put, get and clone operations, with any hash function that respects the comparison, a map returns exactly the last value put for an equal key and reports absent keys as absent, across growth and collisions. A clone has the same contents and later changes to either map do not affect the other. Results are unaffected by collections at any allocation.",
  ["histories", "inputs"], "All operation sequences, key distributions and hash functions (including constant hashes), with collections at every allocation.",
  "tests/maps.c inserts one key set with one hash function.",
  ["collections/map.c", "ggggc/collections/map.h"],
  [("map operations", "collections/map.c"), ("typed wrappers", "ggggc/collections/map.h: GGC_MAP")],
  ["get results; used count"])

p("C21", "Boxed units and unit-array unboxing preserve every value in order",
  "A boxed value reads back exactly what was stored. Unboxing an array of boxed values produces a data array of the same length whose elements equal the boxed values in order, for every element type and length and with collections happening during the conversion. The source array and its boxes are left unchanged.",
  ["inputs", "histories"], "All element types, lengths and values, with collections at every allocation.",
  "No test includes the unit collection.",
  ["ggggc/collections/unit.h"],
  [("unboxing", "ggggc/collections/unit.h: GGC_UNIT")],
  ["array contents"])

p("C22", "A descriptor's user pointer is a traced reference shared by its objects",
  "The user pointer stored in the descriptor of any object is read back unchanged through every object with that descriptor, keeps its referent (and everything it reaches) alive, and is updated when the referent or the descriptor moves. A descriptor created at run time stays valid for as long as any object using it is reachable, even when the program holds no other reference to it.",
  ["programs", "histories"], "All histories of descriptor creation, object creation, user-pointer writes and collections.",
  "No test uses descriptor user pointers or drops a run-time descriptor.",
  ["ggggc/gc.h", "allocator.c", "collector/gembc.c", "collector/portablems.c"],
  [("descriptors as heap objects", "allocator.c: ggggc_allocateDescriptorL"), ("user pointer barrier", "ggggc/gc.h: GGC_WUP, GGC_RUP")],
  ["GGC_RUP results; contents of objects with run-time descriptors"])

p("C23", "Running out of memory never corrupts or hangs the program",
  "When the system refuses to provide more memory at any point, the collector keeps going inside the memory it has as long as the live data and the request fit, and otherwise ends the program with its out-of-memory abort. It never hangs, never crashes in another way, and never returns memory that damages live objects. A request no memory area could ever hold, an array length whose size in bytes overflows included, ends the program with a message and an abort as well. When memory becomes available again, allocation continues normally.",
  ["fault_sequences", "histories"], "All sequences of refused and granted system memory requests at every pool request of every program.",
  "No test makes a system allocation fail (only the tiny-heap debug build bounds it, on fixed programs).",
  ["allocator.c", "allocator/malign.c", "allocator/malloc.c", "allocator/mmap.c", "allocator/sbrk.c", "allocator/portable.c", "collector/gembc.c", "collector/portablems.c"],
  [("must-succeed and may-fail pool requests", "allocator.c: ggggc_newPool"), ("promotion failure falls back to a deeper collection", "collector/gembc.c: ggggc_collect0")],
  ["exit mode of the program and model of the heap"])

p("C24", "Every pool source hands out correctly placed, private memory",
  "Whatever the pool source in use (aligned allocation, plain allocation, anonymous mapping, program break, Windows virtual memory), each memory area it provides is fully usable, placed as the collector requires, and disjoint from every other area and from all memory the program itself obtains from the system. This holds in any interleaving with the program's own allocations and program-break moves, and in any order of refusal and success. A refused request is reported as such and leaves the source usable.",
  ["histories", "fault_sequences", "configurations"], "All interleavings of pool requests with the program's own memory use and with refusals, for every pool source.",
  "Tests only use each source through whole programs that do not use the system allocator meanwhile.",
  ["allocator/malign.c", "allocator/malloc.c", "allocator/mmap.c", "allocator/sbrk.c", "allocator/win-valloc.c", "allocator/portable.c", "allocator.c"],
  [("pool sources", "allocator/*.c: allocPool")],
  ["addresses and contents of areas and of the program's own blocks"])

p("C25", "Corruption checking reports damage and never cries wolf",
  "With corruption checking enabled, a program that stays within its objects is never reported, whatever it allocates, mutates and collects. If the check word of any object reachable from a root is overwritten, the program is stopped with a corruption report no later than the next full collection, rather than continuing silently.",
  ["histories", "configurations", "fault_sequences"], "All valid operation histories; all choices of damaged reachable object and point in time.",
  "The debug test configuration only runs correct fixed programs and never checks that damage is noticed.",
  ["collector/gembc.c", "collector/portablems.c", "ggggc/gc.h"],
  [("check words verified around collections", "memoryCorruptionCheck in both collectors")],
  ["exit mode and message"])

p("C26", "The portable barrier implementation is a correct reusable barrier",
  "The barrier built from mutexes and semaphores for platforms without a native one lets no participant pass before all participants of that round have arrived, releases all of them once they have, and can be reused for any number of rounds. No schedule of the participants deadlocks it, lets a participant slip into the next round early, or loses a wake-up.",
  ["schedules", "histories"], "All schedules of 1 to several participants over any number of rounds.",
  "It is not compiled on this platform at all.",
  ["gen-barriers.c", "ggggc/gen-barriers.h"],
  [("two-phase semaphore barrier", "gen-barriers.c: ggc_barrier_wait_raw")],
  ["round numbers seen by participants"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
