#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay diffable)."""
import json, os
S = "dumpster/src/sync/mod.rs"; SC = "dumpster/src/sync/collect.rs"
U = "dumpster/src/unsync/mod.rs"; UC = "dumpster/src/unsync/collect.rs"
I = "dumpster/src/impls.rs"; D = "dumpster_derive/src/lib.rs"; P = "dumpster/src/ptr.rs"; L = "dumpster/src/lib.rs"
def m(name, where): return {"name": name, "where": where}
def st(name, meaning, where): return {"name": name, "meaning": meaning, "where": where}
props = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    props.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": mech, "state": list(state), "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "sync: an object that some thread can still reach is never destroyed",
 "Whatever threads do concurrently with sync handles (create, clone, dereference, move between owners, swap, store in other managed values, drop) and whenever collections run, an object reachable from a handle that some thread still owns is neither destroyed nor freed. Dereferencing an owned handle always yields the intact value it was created with.",
 ["schedules", "histories", "inputs"],
 "all interleavings (at the granularity of single atomic operations) of all finite histories of handle operations by any number of threads on any object graph, with collections started by any thread at any point",
 "the tests are single-threaded; two of them fake one interleaving each by mutating the graph from inside accept()",
 [S, SC],
 [m("strong count incremented before the generation is stamped", S + " Clone"), m("tag and generation comparison while the reference graph is built", SC + " Dfs::visit_sync, dfs"),
  m("unaccounted-reference and weak-count root detection, mark", SC + " GarbageTruck::collect_all, mark")],
 [st("strong", "number of handles to the allocation", S), st("generation / tag / CURRENT_TAG", "which sweep last saw the allocation or handle used", S), st("ref_graph.n_unaccounted", "references not explained by the graph built so far", SC)],
 ["Deref of every handle", "Drop of the managed value"])

prop("C02", "sync: every object is destroyed at most once and never touched after free",
 "Under every interleaving of handle operations and collections, an object's destructor runs at most once, its memory is released exactly once with the layout it was allocated with, and nothing reads or writes that memory afterwards. Destruction is ordered after every earlier access by any thread (there is no data race on a managed value or on the collector's bookkeeping).",
 ["schedules", "histories"],
 "all interleavings and all executions permitted by the memory orderings in the code, over all histories of handle operations by any number of threads",
 "tests run on one thread per object; a race between the last drops of two threads, or between a drop and a running collection, is never produced",
 [S, SC],
 [m("weak count guarding the allocation while a drop is in flight", S + " Drop"), m("weak count held by dumpsters, garbage truck and reference graph", SC + " mark_dirty, deliver_to, dfs"), m("deferred destruction of allocations whose last holder is the collector", SC + " collect_all, drop_weak_zero")],
 [st("weak", "number of collector-side holders of the allocation", S)],
 ["allocator events", "Drop of the managed value", "every memory access of instrumented code"])

prop("C03", "sync: nothing unreachable survives a collection once the threads are quiet",
 "Once no thread is operating on the heap and every other thread that used it has exited or called collect(), a further call to collect() leaves no unreachable object undestroyed or unfreed, whatever interleaving of handle operations and collections led there. This covers acyclic objects, objects without any handles inside, and arbitrary cycles. Unreachable objects that only the calling thread has ever used, and that refer to nothing other threads have used, are destroyed when its collect() returns even while other threads go on using and collecting other objects.",
 ["schedules", "histories", "inputs"],
 "all interleavings of all finite histories of handle operations followed by quiescence, over all object graphs",
 "the fuzz test checks one single-threaded history with one fixed seed; losing track of an object needs concurrent drops or drops during a collection",
 [S, SC],
 [m("marking an allocation dirty whenever a non-last handle is dropped", S + " Drop, " + SC + " mark_dirty"), m("delivering thread-local dumpsters to the truck", SC + " deliver_to, Drop for Dumpster"), m("releasing the collector's weak counts after a sweep", SC + " collect_all")],
 [st("Dumpster.contents / GarbageTruck.contents", "candidates for the next sweep", SC)],
 ["Drop of the managed value", "allocator events after the final collect()"])

prop("C04", "sync: every operation finishes; no deadlock, no blocking on user locks",
 "As long as other threads keep being scheduled, every creation, clone, dereference, drop and collect() returns within a bounded number of steps: no combination of concurrent drops, automatic and explicit collections, and destructors that themselves drop handles or request a collection can deadlock or loop. A thread stalled in user code while holding a lock or read guard inside a managed value never prevents other threads' drops and collections from finishing.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings including arbitrarily long stalls of any thread in user code, and any nesting of drops and collections inside destructors",
 "the only test about blocking drops one handle on one thread while that same thread holds the lock",
 [S, SC, I],
 [m("collecting_lock serialising sweeps", SC + " collect_all, collect_all_await"), m("CLEANING flag suppressing nested work", SC + " currently_cleaning"), m("try_lock instead of lock while tracing", I + " Mutex, RwLock")],
 [st("collecting_lock", "held for writing for the whole sweep", SC)],
 ["return of every call", "simulator deadlock and step-budget detection"])

prop("C05", "unsync: a value that is still reachable is never destroyed",
 "In a thread-local heap, no matter at which drop a collection happens to be triggered and which values are mutably borrowed at that moment, a value reachable from a handle the program still owns is neither destroyed nor freed, and dereferencing the handle yields the intact value. Heaps of different threads never affect each other.",
 ["histories", "inputs", "schedules"],
 "all histories of handle operations on all object graphs, all choices of drops at which the collection condition fires, all hash orders, all sets of outstanding borrows, any number of threads each with its own heap",
 "tests collect only at fixed points with nothing borrowed and on graphs of at most four nodes; there is no unsync fuzz test",
 [U, UC],
 [m("reference count", U + " Clone, Drop"), m("root detection by unaccounted references, mark phase", UC + " collect_all, Dfs, Mark")],
 [st("ref_count", "handles to the allocation", U), st("to_collect", "candidates for the next sweep", UC)],
 ["Deref of every handle", "Drop of the managed value", "allocator events"])

prop("C06", "unsync: collect() destroys everything unreachable, exactly once",
 "When unsync::collect() returns, every value of the calling thread that is unreachable has been destroyed and freed, each exactly once and with the layout it was allocated with, for every object graph and every earlier history of drops and automatic collections. A value whose last handle is dropped is destroyed before that drop returns.",
 ["histories", "inputs", "schedules"],
 "all histories of handle operations on all object graphs, all choices of drops at which the collection condition fires, all hash orders",
 "tests cover a handful of fixed graphs with one collection at the end",
 [U, UC],
 [m("marking dirty on non-last drop", U + " Drop"), m("sweep and DropAlloc traversal with a visited set", UC + " collect_all, DropAlloc, drop_assist")],
 [st("to_collect", "candidates for the next sweep", UC)],
 ["Drop of the managed value", "allocator events after collect()"])

prop("C07", "handles used inside destructors are either intact or dead, never dangling",
 "Inside a destructor, and forever after for handles that escape from it, each handle either refers to an intact, undestroyed value or reports itself dead (try_deref and try_clone give None, deref and clone panic); the fallible operations never panic, and a handle to a value that is still reachable is never dead. Handles cloned, created, stored, kept or dropped by a destructor count like any others: they keep their target alive, and once they are gone the target is reclaimed. Calling collect() from a destructor is harmless.",
 ["histories", "schedules", "inputs"],
 "all destructor behaviours (inspecting, cloning, taking, stashing, creating and dropping handles, starting a collection) for all positions in all object graphs, both collectors, whether destruction comes from a count reaching zero or from a sweep, under all interleavings",
 "tests cover one self-loop whose destructor leaks a dead handle, with one access afterwards",
 [S, SC, U, UC, P],
 [m("nulling handles between garbage objects before destroying them", SC + " PrepareForDestruction, " + UC + " DropAlloc"), m("dead-handle checks", S + " and " + U + " try_deref, try_clone, deref, clone"), m("CLEANING / COLLECTING flags in Drop for Gc", S + ", " + U)],
 (), ["results of try_deref/try_clone inside Drop", "later use of escaped handles"])

prop("C08", "a panic in user code never corrupts the heap or disables the collector",
 "If a destructor, a trace method or a collection condition supplied by the user panics during a drop or a collection, no reachable object is destroyed, nothing is destroyed twice or used after free, and the panic does not abort the process by itself. Afterwards the thread's handles can be dereferenced, cloned and dropped as before, and garbage created later is still collected; only objects that took part in the interrupted operation may be leaked.",
 ["fault_sequences", "histories", "schedules"],
 "a panic injected at any call of any user-supplied destructor, trace method or condition, at any point of any history, both collectors, any thread",
 "no test lets user code panic during a drop or a sweep and then continues using the collector",
 [SC, UC, S, U],
 [m("resetting the CLEANING / COLLECTING state", SC + " collect_all, " + UC + " collect_all"), m("not destroying an object that is already being destroyed", UC + " DropAlloc.visited")],
 (), ["behaviour after catch_unwind", "Drop of the managed value", "allocator events"])

prop("C09", "CollectInfo counts exactly the existing and recently dropped handles",
 "At every point where no operation is in flight, the number of existing handles reported to a collection condition equals the number of handles that exist and have not been rendered dead (process-wide for sync, per thread for unsync), including after cycles were collected and handles were cloned or dropped inside destructors. The reported number of handles dropped since the last collection equals the drops performed since then.",
 ["histories", "schedules"],
 "all histories and interleavings of handle operations and collections",
 "no test reads the counters",
 [S, SC, U, UC],
 [m("notify_created_gc / notify_dropped_gc", SC + ", " + UC)],
 [st("n_gcs_existing, n_gcs_dropped / n_refs_living, n_ref_drops", "the reported counters", SC + ", " + UC)],
 ["CollectInfo inside a collection condition"])

prop("C10", "the collection condition in force decides when automatic collections run",
 "A drop starts a collection if the condition in force returns true for it, and otherwise no collection runs unless collect() is called or a thread exits; setting a condition takes effect for all threads (sync) or for the calling thread only (unsync), at any time. In a program that never sets a condition, garbage is collected automatically at the latest when the handles dropped since the last collection outnumber the existing ones several times over (for sync, apart from what other running threads still buffer). Under that default the total tracing work of automatic collections stays proportional to the number of handles dropped.",
 ["histories", "schedules", "configurations"],
 "all histories with conditions set and changed at any time by any thread, and all sufficiently long steady workloads under the default condition",
 "tests never set a condition and check one workload for eventual collection",
 [S, SC, U, UC],
 [m("condition evaluated on each drop", SC + " notify_dropped_gc, " + UC + " notify_dropped_gc"), m("default_collect_condition", S + ", " + U), m("is_full delivery threshold", SC + " Dumpster::is_full")],
 (), ["Drop of managed values relative to condition calls", "allocator events"])

prop("C11", "thread exit loses no garbage and never crashes the process",
 "When a thread exits, everything in its thread-local unsync heap that is unreachable is destroyed, and garbage it left behind in the shared heap can still be collected by the remaining threads. Dropping or using handles while a thread's local storage is being torn down (in any destruction order) neither panics, aborts, nor leaks their targets.",
 ["crash_points", "schedules", "histories"],
 "thread exit at any point of any history, any order of thread-local destructors, handles owned by thread-locals, concurrent activity of other threads",
 "tests never inspect what happens to a thread's garbage after it exits nor keep handles in thread-local storage across the collector's own teardown",
 [SC, UC, S, U],
 [m("Drop for Dumpster", SC + ", " + UC), m("thread-local access from Drop for Gc", S + ", " + U)],
 (), ["Drop of managed values after join", "process survival"])

prop("C12", "values that are locked, borrowed or poisoned are traced safely",
 "If a lock or borrow inside a managed value is held when a drop or collection examines it, the value and everything it holds is preserved and the operation neither blocks nor panics; after the lock is released and the value has become unreachable it is collected like any other. A lock poisoned by a panicking thread is traced exactly like an unpoisoned one.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings in which exclusive guards, shared guards or RefCell borrows are held across any drop or collection by any thread, and lock poisoning at any point",
 "two tests hold one guard on one self-loop on one thread; nothing is ever poisoned",
 [I, SC, UC],
 [m("try_lock / try_read / try_borrow with an error meaning reachable", I), m("errors from accept treated as reachable", SC + " dfs, Dfs::visit_sync, " + S + " Drop"), m("unvisited children remain unaccounted", UC + " Dfs")],
 (), ["Drop of managed values", "return of drop and collect"])

prop("C13", "every handle inside any supported container or derived type is traced",
 "Handles stored in any standard-library container, tuple, array, cell or lock for which the crate provides tracing, or in any field of any variant of a type using the derive macro, are found by both collectors: cycles running through them are collected, values reachable only through them are preserved, however the edges are arranged or rearranged. A handle stored several times or in several positions is accounted for each time.",
 ["inputs", "histories", "schedules"],
 "all object graphs whose edges are held in any mixture of supported containers and derived shapes with any number of elements, with collections at any point",
 "tests only use Vec, Option, OnceCell, RefCell and Mutex and three derived shapes",
 [I, D, L],
 [m("Collectable impls", I), m("delegate_methods", D), m("contains_gcs", L)],
 (), ["Drop of managed values", "Deref of every handle"])

prop("C14", "sync and unsync handles can be mixed without losing safety or garbage",
 "Values managed by the thread-local collector may own handles of the shared collector: the shared objects stay alive exactly as long as the owning value or any other owner, and are released when a sweep, a count reaching zero or a thread exit destroys the owner. Either collector may run, or be triggered, inside destructors run by the other.",
 ["histories", "schedules", "configurations"],
 "all histories and interleavings mixing both collectors on any number of threads",
 "no test uses both collectors together",
 [U, UC, S, SC],
 [m("visit_sync ignored by unsync visitors", UC), m("independent CLEANING / COLLECTING state", SC + ", " + UC)],
 (), ["Drop of managed values", "Deref of every handle"])

prop("C15", "all handles to an object share one identity and one value",
 "All clones of a handle refer to the same value at the same address for as long as any of them exists, across any number of collections: a write through one is seen through all (subject to the value's own synchronisation), raw pointers and pointer equality agree exactly with object identity, and comparing handles compares the values. Distinct live objects are never identified with each other.",
 ["histories", "schedules"],
 "all histories and interleavings of clones, drops, writes and collections, both collectors",
 "doc examples compare two or three handles on one thread without any collection in between",
 [S, U, P],
 [m("as_ptr, ptr_eq, PartialEq, Deref", S + ", " + U), m("Nullable, Erased", P)],
 (), ["as_ptr, ptr_eq, ==, Deref"])

prop("C16", "handles to unsized values behave like handles to sized ones",
 "Handles coerced to trait objects or slices keep their target alive, trace the handles inside it, and destroy and free it exactly once with the original size and alignment, in both collectors and whichever handle (coerced or not) goes last.",
 ["histories", "inputs", "configurations"],
 "all histories mixing coerced and uncoerced handles to values of varying size and alignment, with collections at any point, in the build with the coerce-unsized feature",
 "the two tests coerce one array and read its length",
 [P, S, SC, U, UC],
 [m("Erased round trip of fat pointers", P), m("Layout::for_value at destruction", S + ", " + SC + ", " + U + ", " + UC), m("CoerceUnsized", S + ", " + U)],
 (), ["allocator events", "Drop of managed values"])

prop("C17", "sync: dropping the last handle destroys the object at once",
 "While no other thread is using the shared heap, dropping the last sync handle to an object destroys and frees the object before the drop returns, together with every object that thereby loses its last handle, however handles were cloned, stored and moved and whatever collections ran before. This holds for a heap that only one thread has used so far, and again for any heap once all other threads have exited and a further collection has run. Exempt is what a collection puts off until the next: objects that were locked when it examined them, drops and collections inside destructors it runs, and histories of 100,000 or more drops between two collections.",
 ["histories", "inputs", "schedules"],
 "all histories of handle operations and collections on any object graph by one thread, and by one thread after any concurrent history of other threads that have exited and a collection",
 "the tests drop fresh handles once or twice; an object that was considered for collection before, survived a collection, or was passed on by another thread is left out",
 [S, SC],
 [m("last drop gives up the weak reference held for all handles", S + " Drop"), m("mark_clean withdraws a candidate", SC + " mark_clean"), m("a collection gives up its weak references to survivors", SC + " collect_all")],
 [st("weak", "number of collector-side holders of the allocation", S)],
 ["Drop of managed values", "allocator events"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
