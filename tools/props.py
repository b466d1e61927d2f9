#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "stabby-abi/src/"
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), level_note=None, technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, level_note=level_note, technique=technique, na=na))

CONC = "stateless model checking of the instrumented real code: every interleaving and stale read within bounds"
SEQ = "bounded exhaustive exploration of the real code against a reference model, with memory and lifetime monitors"
NOTE_CONC = ("Every schedule, memory-order-permitted stale read and program within the bounds in the evidence is run on the real code, "
             "compiled with atomics and memory accesses instrumented. Trusted: rustc's ThreadSanitizer pass (so atomics it lowers away, spurious failures of "
             "weak compare-exchange, and assembly are not seen), the explorer in mc/mcrt, and the bounds.")
NOTE_SEQ = ("Every sequence of decisions (operations, arguments, sizes, faults) within the bounds in the evidence is run on the real code and compared "
            "with a reference model; memory errors, leaks, double drops and panics are monitored in every execution. Trusted: the reference model, the explorer in mc/mcrt, and the bounds.")

p("C01", "Shared values are destroyed exactly once, after every use",
  "A value put under shared ownership (a single value, a slice, a string or a trait object) is destroyed exactly once, when its last strong owner goes away, and its memory is released exactly once, when the last strong or weak owner goes away. "
  "Every use made of the value through any owner, on any thread, happens before that destruction, and no owner ever observes a destroyed value or released memory, whatever clones, downgrades, upgrades and drops other threads do meanwhile.",
  ["schedules", "programs"], "every program of clones, reads, downgrades, upgrades and drops over 2-3 threads, under every schedule and memory-order-permitted read",
  "The tests clone and drop on one thread on x86; a missing release/acquire pair or a lost count needs a given interleaving and a weaker memory model.",
  [A+"alloc/sync.rs", A+"alloc/mod.rs", A+"fatptr.rs", A+"vtable/mod.rs"],
  [("strong and weak counting", A+"alloc/sync.rs"), ("type-erased drop of shared trait objects", A+"fatptr.rs")],
  [("strong", "number of strong owners", A+"alloc/mod.rs AllocPrefix"), ("weak", "number of weak owners, plus one while strong owners remain", A+"alloc/mod.rs AllocPrefix")],
  ["drops of the contents", "allocator calls", "memory accesses"], NOTE_CONC, CONC)
p("C02", "Weak handles upgrade exactly while the value is alive",
  "Upgrading a weak handle yields an owner of the original, intact value if and only if a strong owner still exists at that moment, whatever other threads do; once it has failed it fails forever. "
  "The strong and weak counts a program can read equal the number of owners of each kind that exist. Revivable slices of plain data, which can be recovered even with no strong owner left, give back the original data.",
  ["schedules", "programs", "histories"], "every program of handle operations over 1-3 threads under every schedule, against an exact ownership model",
  "Tests upgrade on one thread, before and after the last drop; the racing window between the last drop and the upgrade is never hit.",
  [A+"alloc/sync.rs", A+"fatptr.rs"], [("Weak::upgrade and its slice, string and trait object forms", A+"alloc/sync.rs"), ("WeakSlice::force_upgrade", A+"alloc/sync.rs")],
  [("strong", "number of strong owners", A+"alloc/mod.rs AllocPrefix")], ["results of upgrades", "strong_count and weak_count"], NOTE_CONC, CONC)
p("C03", "Exclusive access to a shared value is given to its sole owner only",
  "A shared owner gives mutable access, gives its value up, or turns into an exclusive owner only when no other strong or weak owner can reach the value, now or while that access lasts; when it says it is shared, it hands the owner back unchanged. "
  "Copy-on-write access (make_mut and its forms) leaves what every other owner sees untouched and gives its caller an unshared equal value, cloning at most once.",
  ["schedules", "programs", "histories"], "every program of handle operations, exclusive requests and copy-on-write accesses over 1-3 threads under every schedule",
  "Tests request exclusive access on one thread; sole ownership decided in two steps is only wrong under a specific interleaving with another thread's upgrade or drop.",
  [A+"alloc/sync.rs", A+"as_mut.rs", A+"fatptr.rs"], [("is_unique, get_mut, make_mut, try_into_inner, into boxed", A+"alloc/sync.rs"), ("IPtrTryAsMut for dynamic pointers", A+"as_mut.rs")],
  [("strong/weak", "owners of each kind", A+"alloc/mod.rs AllocPrefix")], ["mutable references handed out", "values seen by other owners"], NOTE_CONC, CONC)
p("C04", "The atomic cell of shared values is linearizable and never loses one",
  "Loads, stores and compare-exchanges on a cell that holds a shared value (or nothing) behave as if each took effect at one instant between its call and its return, on whatever threads they run. "
  "A load yields a usable owner of the value then in the cell, ownership of every value put in or taken out is neither lost nor duplicated, and a failed compare-exchange changes nothing and reports the current value.",
  ["schedules", "programs", "histories"], "every program of cell operations over 1-3 threads under every schedule, checked for linearizability and exact ownership",
  "No test runs two threads over a cell; the unsafe window between reading the pointer and counting the owner needs another thread to replace the value in it.",
  [A+"alloc/sync.rs", A+"vtable/mod.rs"], [("AtomicArc load, store, compare_exchange, is", A+"alloc/sync.rs")],
  [("ptr", "the owner held by the cell, or null", A+"alloc/sync.rs AtomicArc")], ["values returned", "drops of the contents"], NOTE_CONC, CONC)
p("C05", "The atomic ordered set is linearizable",
  "Inserting into the atomic ordered set and looking an element up in it behave as if each took effect at one instant between its call and its return: an insertion that says it happened is seen by every later lookup and is never undone by another thread's insertion. "
  "Every element is owned exactly once and destroyed exactly once, and lookups always run on a complete tree.",
  ["schedules", "programs", "histories"], "every program of insertions, lookups and edits over 1-3 threads under every schedule",
  "No test uses it from two threads; a lost insertion needs two edits to overlap.",
  [A+"alloc/collections/arc_btree.rs", A+"vtable/mod.rs"], [("AtomicArcBTreeSet insert, get, edit", A+"alloc/collections/arc_btree.rs")],
  [("root", "the current tree", A+"alloc/collections/arc_btree.rs AtomicArcBTreeSet")], ["lookup results", "drops of the elements"], NOTE_CONC, CONC)
p("C06", "Obtaining a type's dispatch table is race-free and stable",
  "Whichever threads first turn a value of some type into a trait object, at whatever moments, each gets a table whose entries are those of that exact type and interface, fully written before it can be read. "
  "Tables obtained for the same type and interface stay valid forever and are interchangeable, and different types never receive each other's entries.",
  ["schedules", "programs"], "every order and interleaving in which 1-3 threads request the tables of 1-3 type and interface pairs",
  "Tests request tables sequentially in one process; two threads registering at once never occurs.",
  [A+"vtable/mod.rs", A+"alloc/collections/arc_btree.rs"], [("IConstConstructor::vtable and the global VTABLES registry", A+"vtable/mod.rs")],
  [("VTABLES", "the registry of tables", A+"vtable/mod.rs")], ["table entries read through trait objects"], NOTE_CONC, CONC)
p("C07", "An imported function is checked before anyone can call it",
  "No thread obtains a function imported with a report check or canary check before that check has completed successfully, whatever other threads race for its first use, and everything the check published is visible to whoever gets the function. "
  "An import whose report disagrees with the exporter's is refused on every use with both reports given; one that agrees always yields the same function.",
  ["schedules", "inputs"], "1-3 threads racing for their first and later uses of an import with a matching or mismatching report",
  "No test makes two threads race for an import's first use.",
  [A+"checked_import.rs", A+"lib.rs"], [("CheckedImport::as_ref and CanariedImport::deref", A+"checked_import.rs")],
  [("checked", "progress of the check", A+"checked_import.rs")], ["functions handed out", "errors"], NOTE_CONC, CONC)
p("C10", "Growable vectors behave as sequences and own each element once",
  "Every operation of the growable vector (construction, reserving, pushing, removing, swapping, truncating, draining from both ends, extending from slices and iterators of any declared size, iterating, indexing, comparing, writing) has the outcome it would have on a plain sequence, for elements of any size and alignment including zero-sized ones. "
  "Every element put in is handed out or destroyed exactly once, all elements lie within the vector's allocation, and nothing leaks.",
  ["histories", "inputs"], "every sequence of operations with every small length, index, range and iterator behaviour, for several element layouts",
  "The tests push a few thousand integers; off-by-one ranges, partial drains, zero-sized and over-aligned elements are never combined.",
  [A+"alloc/vec.rs", A+"alloc/mod.rs"], [("Vec operations and Drain/IntoIter", A+"alloc/vec.rs"), ("AllocPtr/AllocSlice allocation and reallocation", A+"alloc/mod.rs")],
  [("start/end/capacity", "the elements and the room for more", A+"alloc/vec.rs")], ["results, contents, capacity", "allocator calls", "element drops"], NOTE_SEQ, SEQ)
p("C11", "The inline-or-heap vector behaves as a sequence",
  "A vector that keeps a single element inline and spills to the heap beyond it has the same outcome as a plain sequence for every operation and every transition between its two forms. "
  "Every element is handed out or destroyed exactly once, also when a form change fails.",
  ["histories", "inputs", "fault_sequences"], "every sequence of operations within depth, across the boundary between inline and heap, with every choice of failing allocation",
  "Tests cross the boundary once, upward, with integers.",
  [A+"alloc/single_or_vec.rs"], [("push, try_reserve, truncate, extend, slices, iteration and conversions to and from vectors", A+"alloc/single_or_vec.rs")],
  [("inner", "one element or a vector", A+"alloc/single_or_vec.rs")], ["results, contents", "element drops"], NOTE_SEQ, SEQ)
p("C12", "Converting between owners preserves contents and memory",
  "Converting between boxes, boxed slices, vectors, strings, shared slices and shared strings, in any chain of conversions, with any length, spare capacity and element layout, keeps the elements and their order. "
  "Each element is destroyed exactly once and each allocation released exactly once with the size it was obtained with, including for empty and zero-sized contents; borrowing forms (leaks, raw parts) round-trip. Boxed and shared slices compare, order, hash, format and iterate as the sequences they hold.",
  ["histories", "inputs"], "every chain of conversions within depth from every small length and spare capacity",
  "Tests convert a handful of long, full vectors one way.",
  [A+"alloc/boxed.rs", A+"alloc/vec.rs", A+"alloc/sync.rs", A+"alloc/string.rs", A+"alloc/mod.rs"], [("From and into conversions among owners", A+"alloc")],
  [("capacity", "kept in the allocation's prefix by owners that do not store it", A+"alloc/mod.rs AllocPrefix")], ["contents", "allocator calls"], NOTE_SEQ, SEQ)
p("C13", "Strings always hold valid text and behave as text",
  "The owned, shared and borrowed string types behave as the text they were built from: appending, formatting into, comparing, ordering, hashing and converting have the outcome they have on ordinary strings, and the contents are always valid UTF-8.",
  ["histories", "inputs"], "every sequence of operations over texts with characters of every encoded length",
  "The tests build a few ASCII strings.",
  [A+"alloc/string.rs", A+"str.rs"], [("String, ArcStr, Str", A+"alloc/string.rs")], [("inner", "the bytes", A+"alloc/string.rs")], ["text", "hashes and comparisons"], NOTE_SEQ, SEQ)
p("C32", "Serialized values are those of ordinary values and read back equal",
  "With serialization enabled, strings, sequences, options and results have exactly the serialized form of their ordinary counterparts, and are read back wherever those are, as equal values: whether text is lent by the input or only passed through, and whatever length the input announces. "
  "Malformed input gives an error, not a panic or an allocation out of proportion with it; an error midway neither loses nor duplicates what was already read.",
  ["inputs", "fault_sequences"], "every small value and nesting, every error position, every way a format may hand text and lengths over",
  "No test serializes anything.",
  [A+"alloc/string.rs", A+"alloc/vec.rs", A+"alloc/sync.rs", A+"alloc/boxed.rs", A+"option.rs", A+"result.rs", A+"str.rs", A+"slice.rs"], [("Serialize and Deserialize of the containers", A+"alloc/vec.rs")], [("capacity", "how much is reserved before anything is read", A+"alloc/vec.rs")], ["serialized form", "values read", "errors"], NOTE_SEQ, SEQ)
p("C14", "Ordered sets and maps behave as ordered collections with stable snapshots",
  "The copy-on-write ordered set and map have the outcome of an ordinary ordered collection for every history of insertions, replacements, lookups and iterations, at any node fan-out and with any key order. "
  "A clone is an independent snapshot: changing either side is never seen through the other. Every key and value is owned once per holder and destroyed exactly once.",
  ["histories", "inputs"], "every insertion order of small key sets, with clones taken at every point and both sides changed afterwards, for several fan-outs",
  "Tests insert random keys into one set and never look at a snapshot afterwards; node splits on shared nodes depend on insertion order and sharing.",
  [A+"alloc/collections/arc_btree.rs", "stabby/src/map.rs"], [("insert, get, for_each and node splitting", A+"alloc/collections/arc_btree.rs")],
  [("root", "the shared tree", A+"alloc/collections/arc_btree.rs")], ["contents of every snapshot", "element drops"], NOTE_SEQ, SEQ)
p("C15", "Every allocator honours the allocation contract",
  "For every size and alignment, an allocation is either refused or is at least that large, that aligned, disjoint from all others and writable throughout; reallocating keeps the contents up to the smaller of the two sizes and the alignment, and on refusal leaves the block intact; freeing gives each block back once, exactly as obtained. "
  "This holds for each allocator the library provides and for reallocation as provided by default, and whatever allocations the system refuses; requests too large to express are refused rather than wrapped around.",
  ["histories", "inputs", "fault_sequences"], "every sequence of allocations, reallocations and frees over a grid of sizes and alignments, with every choice of refused system allocations",
  "The tests never use unusual alignments, shrink, or refuse an allocation.",
  [A+"alloc/mod.rs", A+"alloc/allocators/libc_alloc.rs", A+"alloc/allocators/rust_alloc.rs"], [("IAlloc implementations", A+"alloc/allocators"), ("Layout arithmetic and AllocPtr", A+"alloc/mod.rs")],
  [], ["addresses and contents of blocks", "system allocator calls"], NOTE_SEQ, SEQ)
p("C16", "A refused allocation changes nothing and loses nothing",
  "When an allocation is refused, every fallible operation of boxes, vectors, strings and shared owners reports it and gives back what it was given, leaving the container exactly as it was and still usable. "
  "Nothing is leaked, destroyed twice or half-built, whichever allocation of whichever operation is refused.",
  ["fault_sequences", "histories"], "every sequence of operations within depth with every choice of refused allocations",
  "No test ever has an allocation fail.",
  [A+"alloc/boxed.rs", A+"alloc/vec.rs", A+"alloc/sync.rs", A+"alloc/single_or_vec.rs", A+"alloc/string.rs", A+"alloc/mod.rs"], [("try_ operations", A+"alloc")],
  [], ["results", "contents after a refusal", "element drops"], NOTE_SEQ, SEQ)
p("C20", "Compact sum types never confuse their variants or payloads",
  "A compact option, result or annotated enum built with some variant is always seen as that variant with that payload, whatever niche encodes the choice and whatever the payload's valid value: through matching by reference, by value and by mutable reference, mapping, unwrapping, cloning, comparing, hashing and converting to and from the ordinary types. "
  "Payloads changed or replaced during a mutable match keep the value consistent, and every payload is destroyed exactly once, also when a callback panics.",
  ["inputs", "histories"], "every variant and boundary payload over a family of payload type pairs covering each niche kind, and every sequence of views, mutations and replacements",
  "The tests build each of a few types once; a determinant overlapping payload bits is only visible for particular payload values and type pairs.",
  [A+"result.rs", A+"option.rs", A+"enums", "stabby-macros/src/enums.rs"], [("determinants and unions behind Result, Option and enums", A+"enums"), ("generated enums", "stabby-macros/src/enums.rs")],
  [("determinant", "which variant is stored", A+"enums/mod.rs")], ["variant and payload seen through each view", "payload drops"], NOTE_SEQ, SEQ)
p("C21", "Declared layouts and unused bits match the real types",
  "For every stable type, including compositions through structs, unions, tuples, arrays, enums, options and results, the size and alignment the library computes are those of the actual type. "
  "Bits it declares unused are never part of a value's meaning, values it declares forbidden never occur, and a declared niche is never produced by a valid value.",
  ["inputs", "programs"], "every composition of the leaf types through the combinators up to a nesting bound, and every boundary value of the leaves",
  "The tests assert the layout of a few dozen fixed types and look at no values.",
  [A+"istable.rs", A+"stable_impls/mod.rs", "stabby-macros/src/structs.rs", "stabby-macros/src/enums.rs", "stabby-macros/src/unions.rs"], [("layout computation by type-level arithmetic", A+"istable.rs"), ("declared layouts of standard types", A+"stable_impls/mod.rs")],
  [], ["computed against actual size, alignment and bytes of values"], NOTE_SEQ, SEQ)
p("C22", "Restricted integers only hold their declared values",
  "An integer restricted to a bit width, to a range, or away from a value can only be obtained with an allowed value, for every width and every input; conversions refuse exactly the inputs that are out of range and keep the value otherwise. "
  "Arithmetic views, comparison, hashing and display agree with the plain integer it stands for.",
  ["inputs"], "every input of the 8-bit and 16-bit forms and all boundary inputs of the wider forms, for every width and restriction",
  "The tests construct none of these exhaustively.",
  [A+"num.rs"], [("u1..u63, i1..i63, NonX forms and conversions", A+"num.rs")], [], ["accepted inputs and values read back"], NOTE_SEQ, SEQ)
p("C23", "Type-level arithmetic computes the numbers it denotes",
  "Every type-level number denotes the integer its bits spell, and every type-level operation on such numbers (addition, subtraction, comparison, minimum, maximum, shifts, powers of two, remainders, alignment and bit operations, conditional selection) yields the type denoting the true result.",
  ["inputs"], "every pair of operands up to a bound, plus boundary operands around powers of two",
  "Tests evaluate a few dozen instances.",
  [A+"typenum2/unsigned.rs", A+"typenum2/mod.rs", "stabby-macros/src/tyops.rs"], [("IUnsigned operations", A+"typenum2/unsigned.rs")], [], ["values of the resulting types"], NOTE_SEQ, SEQ)
p("C24", "Type reports and identifiers agree exactly for compatible types",
  "Two types whose reports are judged compatible, or whose identifiers are equal, have the same name, module, kind and representation, version, fields in order and field types, explicit discriminants and declared alignment, recursively; any difference in one of these makes both reports and identifiers disagree, and so do containers in different allocators (lifetimes, constants, marker types and types transparent by design are not part of reports). "
  "Reports and identifiers of the same type are always equal, are reflexive, symmetric and do not depend on which is asked or where it was made.",
  ["inputs", "configurations"], "every pair drawn from an enumerated family of reports differing in each component, at each position and depth, and of real types differing in one declaration detail",
  "The tests compare a handful of reports for equality.",
  [A+"report.rs", A+"istable.rs", A+"stable_impls/mod.rs", "stabby-macros/src/structs.rs", "stabby-macros/src/enums.rs"], [("is_compatible and gen_id", A+"report.rs")], [], ["verdicts and identifiers"], NOTE_SEQ, SEQ)
p("C25", "Trait objects dispatch to the value they were made from",
  "A trait object made from any pointer kind (plain references, boxes, shared owners) over any set of interfaces calls each method on the original value with its exact arguments and result, destroys the value exactly once as that type, and reaches supertrait methods. "
  "Downcasting succeeds for exactly the type the object was made from and gives the original value; reborrowing, upcasting and cloning keep all of this.",
  ["programs", "inputs"], "every sequence of making, calling, reborrowing, upcasting, cloning, downcasting and dropping trait objects within depth, over families of types, interface sets and pointer kinds",
  "The tests call each method once through one pointer kind.",
  [A+"fatptr.rs", A+"vtable/mod.rs", "stabby-macros/src/traits.rs"], [("DynRef, Dyn and table composition", A+"fatptr.rs"), ("generated dispatch", "stabby-macros/src/traits.rs")],
  [("vtable", "the table of the original type", A+"fatptr.rs")], ["calls received by the value", "downcast results", "drops"], NOTE_SEQ, SEQ)
p("C26", "Futures and wakers cross the boundary unchanged",
  "A future turned into a stable trait object is polled exactly as the original: each poll reaches it once, its output is delivered exactly once and destroyed exactly once, also when it is dropped before completion. "
  "Every waker the future gets wakes the task it was polled for each time it is used, from any thread and even after the poll ended or the future was dropped, and every clone of it is released exactly once.",
  ["schedules", "histories"], "every sequence of polls, wakes, clones and drops within depth, over 1-2 threads and every readiness pattern",
  "The tests run one async function to completion.",
  [A+"future.rs"], [("StableWaker, SharedStableWaker, Future and MaybeResolved", A+"future.rs")], [("waker", "a type-erased waker", A+"future.rs")], ["polls received", "wakes received", "drops"], NOTE_CONC, CONC)
p("C27", "Stable closures call the closure they were made from",
  "A closure made into a stable trait object of any arity and calling mode (once, mutable, shared) receives exactly the arguments passed, keeps its captured state across calls and returns its own result. "
  "Captures, arguments and results are destroyed exactly once, whether the closure is called or not.",
  ["programs", "inputs"], "every arity and calling mode, with every sequence of calls and drops within depth",
  "Tests call a two-argument closure once.",
  [A+"closure.rs", "stabby-macros/src/gen_closures.rs"], [("generated Call, CallMut and CallOnce", "stabby-macros/src/gen_closures.rs")], [], ["arguments, results, drops"], NOTE_SEQ, SEQ)
p("C28", "Time values convert and compute without loss",
  "Stable durations, instants and system times convert to and from the standard ones without changing the time denoted (times before the epoch, which they can't denote, become the epoch), and compare and add as the standard ones do. "
  "The atomic forms read back exactly what was last written, to the microsecond and up to their stated maximum; operations of concurrent threads on them are as if done one after another, with the memory orderings asked for.",
  ["inputs", "schedules"], "a grid of boundary seconds and nanoseconds in every pairing, every microsecond of a second, and every interleaving of 2-3 threads on the atomic forms",
  "The tests convert none of the boundary values.",
  ["stabby/src/time.rs"], [("Duration, Instant, SystemTime and AtomicDuration", "stabby/src/time.rs")], [], ["times read back"], NOTE_CONC, CONC)
p("C29", "Borrowed views expose exactly the data they borrow",
  "Stable slices and string slices, shared and mutable, expose exactly the elements of the data they were made from, in order, whatever its length, convert back to the same memory, and compare and order as the ordinary ones, with hashes that agree with equality. "
  "Stable iterators yield exactly what the original iterator yields, when asked. Viewing a value as another type shows that value and applies changes to it back once, whatever becomes of the guard.",
  ["inputs", "programs"], "every small length and content with every view operation, in every order of conversions within depth",
  "Tests look at one or two arrays.",
  [A+"slice.rs", A+"str.rs", A+"iter.rs", "stabby-abi/src/as_mut.rs"], [("Slice, SliceMut, Str, StrMut and Iterator", A+"slice.rs"), ("RefAs and MutAs", A+"as_mut.rs")], [], ["elements, addresses, comparisons"], NOTE_SEQ, SEQ)
p("C30", "Loading a library hands out only symbols of the expected type",
  "Asking a dynamically loaded library for a stable symbol succeeds exactly when the library exports that symbol with a compatible type report, and then yields the exported function; otherwise it fails with a reason and calls nothing. "
  "Canary-checked loading succeeds exactly when the library was built with compatible settings.",
  ["configurations", "inputs"], "every pairing of a requested signature with an exported signature from an enumerated family, including missing symbols and missing reports",
  "Tests load one library with one matching symbol.",
  ["stabby/src/libloading.rs", "stabby-macros/src/functions.rs"], [("get_stabbied and get_canaried", "stabby/src/libloading.rs"), ("generated export checks", "stabby-macros/src/functions.rs")], [], ["loading results", "calls"], NOTE_SEQ, SEQ)
p("C31", "What may cross threads is safe there",
  "If a container, trait object or import may be sent to (shared with) another thread, then whatever safe programs do with it there, they never race on what it holds or on its allocator, never destroy or get exclusive access to something that must stay in its thread from another one, and never share something that must not be shared. "
  "Containers and trait objects of things that may be sent (shared) may themselves be, as their ordinary counterparts.",
  ["schedules", "configurations", "programs"], "every container and trait object over payloads and allocators of each combination of Send and Sync, moved or shared whenever the compiler allows it, with every operation on two threads and every interleaving within the preemption bound",
  "Tests neither check that what's not thread-safe is rejected, nor run what's accepted from several threads.",
  ["stabby-abi/src/fatptr.rs", "stabby-abi/src/vtable/mod.rs", "stabby-abi/src/result.rs", "stabby-abi/src/checked_import.rs", "stabby-abi/src/alloc/boxed.rs", "stabby-abi/src/alloc/sync.rs", "stabby-abi/src/alloc/mod.rs"],
  [("Send and Sync implementations of containers, trait objects and dispatch tables", "stabby-abi/src/fatptr.rs")], [("HasSendVt and HasSyncVt", "whether the value behind a trait object may be sent or shared", "stabby-abi/src/vtable/mod.rs")], ["unsynchronized accesses to payloads and allocators", "threads in which payloads are destroyed or changed"], NOTE_CONC, CONC)

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({
                "id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["text"]},
                "why_tests_cant": q["why"],
                "anchors": {"files": q["files"],
                            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in q["state"]],
                            "mechanism": [{"name": n, "where": w} for n, w in q["mechanism"]],
                            "observe_at": q["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for q in P:
        built = any(os.path.exists(os.path.join(ROOT, p)) for p in ("mc/src/bin/%s.rs" % q["id"].lower(), "mc/%s/src/main.rs" % q["id"].lower()))
        if q["na"] or not built:
            na.append({"property": q["id"], "reason": q["na"] or "Model checking applies (see DESIGN.md); its check is not finished yet, so it is not claimed."})
        else:
            checks.append({"property": q["id"], "quick_cmd": f"bin/check {q['id']} quick", "thorough_cmd": f"bin/check {q['id']} thorough",
                           "technique": q["technique"], "level": "model_checking", "level_note": q["level_note"]})
    m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the code under test is instrumented by the compiler (see DESIGN.md)."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
    import importlib
    try:
        js = importlib.import_module("jsonschema")
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for q in open(os.path.join(ROOT, "properties.jsonl")):
            js.validate(json.loads(q), s)
        js.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        print("valid:", len(P), "properties,", len(checks), "checks")
    except ImportError:
        print("jsonschema missing: not validated")
main()
