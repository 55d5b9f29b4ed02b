"""What each check claims: shown in the evidence files and in MANIFEST.json."""

TECH = "bounded symbolic execution of the compiled crate (Kani/CBMC, SAT), one operation from an arbitrary valid state"
NOTE = ("Bounded: the solver decides every assertion for all inputs within the bounds of the evidence file (capacity up to 4 "
        "elements, all indices 0..=usize::MAX, all ranges, all predicates/relations as bit masks), with unwinding checked. "
        "Counterexamples are replayed natively before they are reported. Trusts rustc, Kani, CBMC and the listed assumptions.")
BOUNDS = ("vectors with capacity 0..=4 (the number in a storage's name, where there is one) and every length up to it; "
          "indices and counts over all of usize unless a loop depends on them; loops unwound as far as the bound given in "
          "the harness, with the unwinding assertion decided; one operation (or one iterator/cursor with at most 5 steps) "
          "from an arbitrary valid state")
OUTSIDE = "longer vectors, element types other than the instantiated ones (2 bytes with destructor, zero-sized with destructor, and those named in a harness)"
ASSUME = [
    "the starting state is any vector of the stated capacity whose first len slots hold distinct live elements",
    "CBMC's memory model: allocation succeeds unless a harness's allocator refuses",
    "Kani models an unwinding panic as termination: what happens after a panic is the subject of C18 only",
]


def m(what, **kw):
    d = dict(kani=True, what=what, technique=TECH, note=NOTE, bounds=BOUNDS, outside=OUTSIDE, assumptions=list(ASSUME))
    d.update(kw)
    return d


META = {
    "C01": m("Every element carries an identity; its destructor asserts that it has not run before and that the memory is a "
             "live element, and after the vector is gone every identity ever made must have been dropped once."),
    "C02": m("Each edit is run from an arbitrary state and compared, at an arbitrary position, with the edit of a sequence of identities."),
    "C03": m("Arguments over all of usize: refusals must be reached exactly when the request does not fit; refused try_ forms compare the whole state."),
    "C04": m("Fixed storages inside a larger buffer with guard bytes; growth beyond the capacity must panic or return the value."),
    "C07": m("Any range, any interleaving of up to 5 front/back steps, dropped at any point; final contents compared at an arbitrary position."),
    "C08": m("Predicates are arbitrary bit masks over the elements; any mixture of up to 2 front/back steps, then dropped."),
    "C09": m("Any range, replacement lengths 0..=3, exact, low and high size hints, up to one step from either end."),
    "C10": m("An arbitrary cursor state (any range, any prefix written, any number taken or dropped at either end), then one arbitrary operation, "
             "compared with a model of written prefix, gap, unread, gap and written suffix; then dropped or finished."),
    "C11": m("Any length, any interleaving of next, next_back and nth; remaining views compared with the model after each step."),
    "C12": m("The relation is an arbitrary bit matrix over (later, earlier); calls are recorded and compared with the model."),
    "C13": m("Every split index and pair of lengths, between different storages; refusal reached exactly when the destination lacks room."),
    "C14": m("Iterators of 0..=3 items with exact, low and high size hints; clones carry their origin, so each clone and generated item is identified."),
    "C19": m("The iterator is forgotten after up to 2 arbitrary steps; everything reachable must be live and reachable once."),
    "C06": m("For pairs of element sizes (0, 1, 2, 3, 4, 5, 7, 8, 16 bytes) and any capacity at all, the reported capacity is compared, in "
             "128-bit arithmetic, with the number of bytes; storages that claim alignment must have it, others must refuse to build a vector.",
             bounds="any number of elements an object may have (0..=isize::MAX bytes), any request 0..=usize::MAX; the listed pairs of element types",
             outside="other element sizes"),
    "C15": m("Elements with a custom, partial equality and order; comparisons, hashes (as the sequence of bytes fed to the hasher) and borrowed "
             "slices are compared with those of the slices of the same elements.",
             bounds="two vectors (on a slice, in an inline buffer) of any lengths 0..=3 with any contents, and arbitrary unused slots"),
    "C20": m("Both bounds are any kind of Bound over all of usize; the selection is compared with the one of slicing, and refusals must be "
             "reached exactly when slicing would refuse.",
             bounds="vectors of zero-sized elements of any length 0..=usize::MAX, and of capacity 0..=4 for sized elements; any bounds"),
    "C21": m("The writer is filled with up to 2 items, then saved or dropped, twice in sequence; address, room, contents and drops are compared."),
    "C22": m("Up to 2 (thorough: 3) arbitrary operations from set_len, push, pop, store, truncate, insert, clear, try_reserve, against a model of "
             "the values last stored in each slot; then any length is set and compared.",
             bounds="initialized slices of 0..=3 slots and an array of 3 slots with any contents; any requested length 0..=usize::MAX"),
    "C25": m("The operations of all other checks, run on boxed, referenced and unsized storages with the same oracle."),
}

NOT_APPLICABLE = {
    "C26": "auto traits (Send/Sync) are decided by the type checker at compile time; there is no value for a solver to quantify over, "
           "and the code executes no concurrent operation",
    "C27": "the aliasing model (Stacked/Tree Borrows) is a property of executions under an operational semantics that neither Kani/CBMC "
           "nor the LLVM IR encodes; only an interpreter (Miri) on concrete runs can observe it, which is not solver-based",
}
for _i in range(1, 26):
    _k = "C%02d" % _i
    if _k not in META:
        NOT_APPLICABLE[_k] = "not built yet"
