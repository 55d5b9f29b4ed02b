#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe, hook_needed=hook)))
L="src/lib.rs"; RC="src/iter/raw_cursor.rs"
HK="cfg generic_vec_modern_nightly: lets the `nightly` feature compile with the model checker's toolchain"
p("C01","Each element is owned exactly once",
 "Every value put into a vector is, over the life of the program, either handed back to the caller exactly once or dropped exactly once, and never both, whatever sequence of safe operations is applied and whatever storage backs the vector. Dropping a vector (or any iterator or cursor made from it) drops exactly the elements it still holds. An operation that reports failure by returning the value hands that very value back and does not also store or drop it.",
 ["inputs","histories"],"for every vector state (length, capacity, storage) and every argument of every safe operation; one operation from an arbitrary state, which covers histories of any length",
 "The tests check contents of a few fixed vectors; element drops are hardly observed, and only for lengths the tests happen to use.",
 [L,RC,"src/iter/drain.rs","src/iter/into_iter.rs","src/iter/splice.rs"],
 [("drop of the first len elements","src/lib.rs impl Drop for GenericVec"),("ManuallyDrop/forget when ownership moves","src/lib.rs into_raw_parts, save_spare!"),("cursor keeps the vector's length at the untouched prefix",RC+" RawCursor::new/finish")],
 ["element destructors","returned values","contents of the vector afterwards"],[("len","number of initialized elements",L+" GenericVec::len")])
p("C02","Single-element edits act exactly like edits of a sequence",
 "push, insert, pop, remove, swap_remove, truncate, clear and their try_ and unchecked forms change the contents exactly as the corresponding edit of an abstract sequence, return the value that edit produces, and keep every other element with its order. A returned reference denotes the element just stored. Indexing, slicing and the slice views show exactly the current contents.",
 ["inputs","histories"],"for every length, capacity, index and contents of the vector, and every storage kind",
 "Tests run these operations on one or two hand-written vectors; wrong shifting at particular index/length/capacity combinations (full, empty, last, first) is not sampled.",
 [L],[("ptr.copy_from shifts","src/lib.rs insert_unchecked/remove_unchecked/swap_remove_unchecked"),("set_len_unchecked before moving","src/lib.rs")],
 ["vector contents","return values"])
p("C03","Out-of-range requests are refused and change nothing",
 "For every index and length: insert, remove, swap_remove, pop and split_off panic exactly when the request does not fit the current length, and the try_ forms never panic and return None or Err exactly in those cases (for insertions, also exactly when the vector is full). A refused request leaves the vector's contents, length and capacity unchanged.",
 ["inputs"],"for every length, capacity and index including 0, length, length+1 and the largest integers, in debug and release builds",
 "Boundary values are exactly what a handful of samples misses: index equal to the length was accepted by several operations while all tests passed.",
 [L],[("range checks in front of the unchecked operations","src/lib.rs insert/remove/swap_remove/try_*")],["panics","None/Err results","vector state after a refusal"])
p("C04","Fixed-capacity storages never exceed their buffer",
 "A vector on a slice, array, buffer or other fixed storage never holds more elements than its capacity, never writes outside the buffer it was given, and never moves its elements to another buffer. When it is full, push, insert, extend and reserve panic rather than write, the try_ forms give the value back, and reserve succeeds and try_reserve returns true exactly when the requested room is available.",
 ["inputs","histories"],"for every buffer size, length, requested room (up to the largest integer) and every growing operation",
 "Tests fill one buffer size; arithmetic on lengths near the capacity and near the integer maximum is not exercised, nor are bytes outside the buffer observed.",
 [L,"src/raw/slice.rs","src/raw/uninit.rs","src/raw/array/stable.rs","src/raw/array/nightly.rs"],
 [("reserve/try_reserve comparisons with the capacity","src/raw/*.rs"),("is_full / remaining_capacity","src/lib.rs")],["panics, results","bytes next to the buffer","data pointer"])
p("C05","Heap vectors grow without losing elements and honour the allocator",
 "After a successful reserve or try_reserve the capacity is at least the length plus the requested room, the contents are unchanged, and further pushes within the capacity do not move the elements. Every allocation, reallocation and release a heap vector performs uses the exact size and alignment of the block concerned, each block is released exactly once, and nothing is allocated or released for vectors that never needed memory. A growing vector at least doubles its capacity, so that n pushes cost a logarithmic number of reallocations.",
 ["inputs","histories"],"for every element size and alignment, initial capacity, length and requested room within the bounds",
 "The tests cannot observe layouts passed to the allocator for all sizes; an empty heap vector was never even dropped by a test.",
 ["src/raw/heap/stable.rs","src/raw/heap/nightly.rs",L],[("reserve_slow","src/raw/heap/*.rs"),("Drop for Heap","src/raw/heap/*.rs")],["allocator calls","capacity()","contents"],[("capacity","number of elements the block holds","Heap::capacity")],HK)
p("C06","A storage's capacity is what its memory can really hold",
 "For every element type and storage type, the number of elements a storage reports as its capacity fits in the bytes the storage owns and is the largest such number (zero-sized elements fit in any number, except that a slice or array of them has a fixed number of slots), at an address aligned for the element type. A reservation expressed in elements of one size is rounded so that the elements really fit, without wrapping, for every count and every pair of sizes. Storages that are insufficiently aligned for an element type are rejected when the vector is built.",
 ["inputs","configurations"],"for every count, every pair of element sizes and alignments (symbolic sizes in the conversion arithmetic; listed type pairs end to end)",
 "The conversion multiplies and divides machine integers of any value; tests use equal sizes and small counts only.",
 ["src/raw/capacity.rs","src/raw/slice.rs","src/raw/uninit.rs","src/raw/heap/stable.rs","src/raw/heap/nightly.rs",L],
 [("capacity() conversion","src/raw/capacity.rs"),("IS_ALIGNED assertions","src/lib.rs with_storage/from_raw_parts/with_align")],["capacity()","as_ptr() alignment","reserve/try_reserve result"],(),HK)
p("C07","drain removes exactly its range and yields it in order",
 "Draining a range yields exactly the elements of that range, from the front in order and from the back in reverse order under any interleaving, with exact size hints. Once the iterator is gone the vector holds exactly the elements before and after the range, in order, however much of the iterator was consumed.",
 ["inputs","histories"],"for every length, range and interleaving of front and back steps and early drop",
 "Tests drain a few ranges from the front; back/front interleavings with partial consumption are not covered for all ranges.",
 ["src/iter/drain.rs",RC,L],[("RawCursor take_front/take_back/finish",RC)],["yielded items","vector after the drop"])
p("C08","drain_filter and retain keep exactly the elements they should",
 "drain_filter calls its predicate once on every element of the range, in order for front steps, removes and yields exactly those for which it answers true, and leaves all others in their original order, for any mixture of front and back steps and when dropped early. retain keeps exactly the elements for which its predicate answers true, calling it once per element in the original order. Changes the predicate makes to an element it keeps are preserved.",
 ["inputs","histories"],"for every length, range, pattern of predicate answers and interleaving of front/back steps",
 "All 2^n answer patterns crossed with ranges and step orders; tests use one or two predicates.",
 ["src/iter/drain_filter.rs",RC,L],[("skip_front/skip_back/take_*",RC)],["predicate calls","yielded items","vector after the drop"])
p("C09","splice replaces exactly its range",
 "Splicing a range yields the removed elements (from both ends) and, once dropped, leaves the vector as prefix + all items of the replacement iterator + suffix, in order, for any replacement length, shorter, equal or longer than the range, any position including the end of the vector, and any (even wrong) size hint. The replacement iterator is consumed only when the splice is dropped. On a fixed storage that cannot hold the result it panics and loses no element before or after the range.",
 ["inputs","histories","configurations"],"for every length, range, amount consumed before the drop, replacement length and size hint, with and without an allocator",
 "Tests use a few lengths; a splice at the end of a non-empty vector silently lost its items while all tests passed.",
 ["src/iter/splice.rs",RC],[("Drop for Splice","src/iter/splice.rs"),("RawCursor::reserve",RC)],["vector after the drop","yielded items"])
p("C10","Cursors behave as an editable window",
 "Every sequence of safe cursor operations (take, drop, skip, write, try_write, write_slice, reserve, at either end) acts as on a model made of a written prefix, unfilled slots, unread elements, unfilled slots and a written suffix; the counts the cursor reports agree with that model, and operations that do not fit are refused. When the cursor is finished or dropped, the vector is the part before the range, the written or skipped elements, the unread elements, and the part after the range, in order.",
 ["inputs","histories"],"for every vector, range and every sequence of cursor operations up to the stated number of steps, including operations after finish and huge arguments",
 "The state space of interleaved front/back operations is not sampled by the tests, which never use a cursor directly.",
 ["src/iter/cursor.rs",RC],[("four pointers write_front<=read_front<=read_back<=write_back",RC)],["vector after finish","reported counts","panics"],[("write_front/read_front/read_back/write_back","borders of the regions",RC)])
p("C11","Owning iteration yields every element once, from both ends",
 "Iterating a vector by value yields its elements in order from the front and in reverse from the back under any interleaving of next, next_back and nth; lengths, size hints, counts and the remaining-slice views always describe exactly what is left. Elements skipped by nth and elements never reached are dropped exactly once, and the storage is released.",
 ["inputs","histories"],"for every length and every interleaving of next, next_back and nth (with any argument) up to the stated number of steps",
 "Tests iterate a few vectors front to back.",
 ["src/iter/into_iter.rs"],[("index and shrinking length","src/iter/into_iter.rs")],["yielded items","size_hint/len/count/as_slice","destructors"])
p("C12","Deduplication keeps the first of each run",
 "dedup_by removes every element that its relation says is the same as the last kept element before it, calling the relation as (later, earlier) and once per later element, and keeps all others in order; dedup_by_key and dedup do the same with equality of keys or elements. Removed elements are dropped, kept ones are not.",
 ["inputs"],"for every length, contents and every (even inconsistent) relation outcome within the bounds",
 "Every outcome pattern of the relation; tests use one vector per function.",
 ["src/slice.rs",L],[("partition_dedup_by swaps","src/slice.rs")],["vector contents","relation calls","destructors"])
p("C13","Splitting, appending and converting move elements intact",
 "Splitting at an index leaves exactly the elements before it and moves the rest, in order, to the end of the destination; appending moves all elements of the other vector to the end and leaves it empty; converting to another storage preserves the whole sequence. This holds between any two storages, and when the destination lacks room the operation panics with both vectors unchanged.",
 ["inputs","configurations"],"for every pair of storages, lengths, capacities and split index, including an index equal to the length and a destination without room",
 "Pairs of storages and full destinations are not sampled.",
 [L],[("split_off_into + extend_from_slice_unchecked","src/lib.rs"),("capacity check at compile time","StorageWithCapacity")],["contents of both vectors"])
p("C14","Bulk growth appends exactly the requested items",
 "extend, collect, extend_from_slice, grow, grow_with, resize, resize_with and the array and list macros append exactly the given, cloned or generated items in order after the existing elements, and clone_from and clone produce a sequence equal to the source. Each item is cloned or generated exactly the required number of times, whatever the iterator's size hint says. resize to a shorter length truncates.",
 ["inputs","configurations"],"for every length, capacity, number of items, contents and size hint (exact, too low, too high), for cloneable and for bitwise-copyable elements",
 "Wrong size hints, zero counts and copy-specialized paths are not sampled by the tests; the copy-specialized grow overwrote existing elements while all tests passed.",
 [L,"src/extension.rs","src/iter.rs","src/impls.rs"],[("spare-capacity writer","src/extension.rs"),("Copy specialization","src/extension.rs (nightly)")],["vector contents","number of clone/generator calls"],(),HK)
p("C15","Comparison, ordering and hashing agree with slices",
 "Two vectors, or a vector and a slice, compare equal, ordered and hash exactly as the slices of their elements do, whatever their storages, capacities and the bytes of their unused slots. Borrowing a vector as a slice, in any of the provided ways, gives that same slice.",
 ["inputs"],"for every pair of contents and lengths (including prefixes) and pairs of storages",
 "Quantifies over all pairs of contents; tests compare equal vectors.",
 ["src/impls.rs",L],[("delegation to as_slice()","src/impls.rs")],["==, <, cmp, Hash output, Borrow/AsRef/Index results"])
p("C16","Vectors of zero-sized elements count correctly",
 "With zero-sized elements every operation has the same observable effect as with sized ones: lengths, results, refusals, iteration counts and the number of destructor runs are those of the abstract sequence. A fixed list-like storage of such elements still holds at most the number of elements it was made for, and no length arithmetic wraps even for the largest lengths.",
 ["inputs","histories"],"for every length up to the integer maximum where the operation does not visit elements, and small lengths elsewhere; every storage kind",
 "Zero-sized paths are separate code; tests cover a few short vectors of a unit type without destructors.",
 [L,RC,"src/raw/zero_sized.rs","src/iter/splice.rs"],[("counter pointers for zero-sized elements",RC)],["lengths","destructor counts","results"])
p("C17","Conversions round-trip without loss",
 "Converting between the standard vector and a heap vector, between arrays and array vectors, and to and from length/storage or pointer/capacity parts preserves length, contents and (for heap memory) the address and capacity, in both directions, for every length and capacity including none. No conversion copies, drops or leaks an element, and ownership of the memory is transferred exactly once.",
 ["inputs","configurations"],"for every length and capacity within the bounds, zero-capacity and zero-sized cases, with the default and with custom allocators",
 "Tests convert one vector; spare capacity, zero capacity and custom allocators are not covered, and converting from an array produced an empty vector while all tests passed.",
 ["src/impls.rs",L,"src/raw/heap/stable.rs","src/raw/heap/nightly.rs"],[("into_raw_parts/from_raw_parts","src/lib.rs, src/raw/heap/*.rs"),("From impls","src/impls.rs")],["len, capacity, data pointer, contents","destructors"],(),HK)
p("C18","A panic in user code never corrupts a vector",
 "If a destructor, clone, predicate, comparison, generator or iterator supplied by the user panics at any call during any operation, then afterwards no element has been dropped twice, no dropped or uninitialized value is reachable through the vector, and the vector can be used and dropped normally. Elements that the interrupted operation was adding (by cloning or generating) are dropped and the previous contents stay.",
 ["fault_sequences","inputs"],"for every operation that calls user code, every call at which it panics, every length, range and pattern of answers within the bounds",
 "Needs a fault at each possible call of user code crossed with all vector states; tests inject none.",
 [L,RC,"src/extension.rs","src/iter/drain_filter.rs","src/iter/splice.rs","src/iter/into_iter.rs","src/slice.rs"],
 [("length lowered before user code runs","src/lib.rs truncate, "+RC),("drop guards","src/iter/drain_filter.rs SetOnDrop, src/iter/into_iter.rs DropAlloc"),("spare-capacity writer drops new items","src/extension.rs")],["destructor counts","vector contents after the panic"])
p("C19","Forgetting an iterator or cursor leaves a valid vector",
 "If a draining, filtering or splicing iterator, a cursor, or a spare-capacity writer is leaked instead of dropped, at any point of its use, the vector afterwards holds only initialized elements that nobody else owns: leaking may lose elements but never yields one twice, drops one twice or exposes garbage.",
 ["histories","inputs"],"for every vector, range, number and kind of steps taken before the leak",
 "Leaks at each intermediate state; tests never leak an iterator.",
 [RC,"src/iter/drain.rs","src/iter/drain_filter.rs","src/iter/splice.rs",L],[("vector length is the start of the range while borrowed",RC+" RawCursor::new")],["vector contents and destructor counts after mem::forget"])
p("C20","Ranges are interpreted and checked exactly as for slices",
 "Every form of range argument (inclusive, exclusive or unbounded at either end) accepted by drain, drain_filter, splice and the cursors selects exactly the elements that slicing with it would select. A range whose start exceeds its end or whose end exceeds the length, including bounds at the integer maximum, makes the call panic with the vector unchanged.",
 ["inputs"],"for every length and every pair of bounds over the whole integer range",
 "Boundary values near the integer maximum and all bound kinds are not sampled.",
 ["src/slice.rs",L],[("check_range","src/slice.rs")],["selected elements","panics"])
p("C21","Spare capacity is exactly the unused rest of the buffer",
 "The spare-capacity writer covers exactly the slots from the length to the capacity of the vector; items pushed into it become visible in the vector, in order after the existing elements, exactly when they are saved, and are dropped, leaving the vector unchanged, when it is dropped instead. While it exists the existing elements are not touched.",
 ["inputs","histories"],"for every length, capacity and number of items pushed, saved or dropped",
 "One length is sampled by the documentation example.",
 [L],[("spare_capacity_mut + save_spare!","src/lib.rs")],["contents, lengths, data pointers, destructors"])
p("C22","Initialized storages let the length move freely but not too far",
 "A vector on an initialized slice or array starts full with the given contents; setting any length up to the capacity exposes exactly the values last stored in those slots and larger lengths panic and change nothing. No operation on such a vector ever exposes a value that was not stored there.",
 ["inputs","histories"],"for every buffer length, contents and requested length over the whole integer range",
 "Tests set one length; lengths above the capacity and zero-sized elements are not sampled.",
 [L,"src/raw/slice.rs","src/raw/array/stable.rs","src/raw/array/nightly.rs"],[("set_len assertion","src/lib.rs set_len")],["contents after set_len","panics"],(),HK)
p("C23","Whole-array edits equal the same edits done element by element",
 "push_array, insert_array, pop_array, remove_array and their try_ forms act on the sequence as N consecutive single-element edits, return the removed elements in order, and are refused exactly when fewer than N elements are present, N slots are not available, or the index is out of range; a refused try_ form returns its input or None and changes nothing.",
 ["inputs"],"for every length, capacity, index (whole integer range) and array length within the bounds",
 "Only the nightly configuration has them; sizes equal to, below and above the remaining room or length are not sampled (exact fits panicked).",
 [L],[("*_array_unchecked","src/lib.rs (nightly)")],["contents, results, panics"],(),HK)
p("C24","Allocation failure is reported, not mishandled",
 "When memory cannot be provided (the allocator refuses, or the size is not representable), try_reserve returns false, leaves contents, length, capacity and the held block unchanged, and the vector stays usable; reserve never returns normally without the room. Nothing is leaked or released twice on these paths.",
 ["fault_sequences","inputs"],"for every refusal point of the allocator, every requested size over the whole integer range, length and capacity within the bounds",
 "Allocation failure cannot be provoked by the tests' allocators, and sizes near the integer maximum are not sampled.",
 ["src/raw/heap/stable.rs","src/raw/heap/nightly.rs",L],[("OnFailure::Error paths of reserve_slow","src/raw/heap/*.rs")],["try_reserve result","vector state","allocator calls"],(),HK)
p("C25","Every storage wrapper forwards to the storage it wraps",
 "A vector on a mutable reference to a storage, on a boxed storage, or on an unsized storage behaves exactly like one on that storage itself: same capacity, same data address, same acceptance and refusal of growth. A boxed storage created with a capacity, cloned or split off has at least that room.",
 ["configurations","inputs"],"for every wrapper kind over each base storage, every length and requested room",
 "Wrappers are sampled with one storage each.",
 ["src/raw.rs"],[("blanket Storage impls","src/raw.rs")],["capacity, data pointer, results"])
p("C26","The documented thread-safety follows from the element type",
 "A vector, its storages, cursors and iterators can be sent to or shared with another thread only if its elements (and allocator) can.",
 ["programs"],"for every element and storage type",
 "A statement about which programs compile.",
 ["src/raw/heap/stable.rs","src/raw/slice.rs","src/raw/uninit.rs",RC],[("unsafe impl Send/Sync","src/raw/*.rs, "+RC)],["whether a program compiles"])
p("C27","The implementation respects the language's aliasing rules",
 "No safe use of the crate executes memory accesses that the Rust aliasing model forbids.",
 ["programs","histories"],"for every safe program using the crate",
 "Aliasing violations do not show in test results.",
 [RC,L],[("raw pointers derived from the vector",RC)],["an aliasing-model interpreter"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,x["title"]
    assert x["statement"].count(". ")<=2,x["id"]
print(len(P))
