"""writes properties.jsonl (kept as a script so that statements stay reviewable); python3 tools/props.py"""
import json, os

def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files,
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                        "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "observe_at": list(observe), "hook_needed": None}}

V, F, R, B, N, S, SO, L = ("src/vector.rs", "src/focus.rs", "src/circular.rs", "src/node_impls/basic.rs", "src/node_traits.rs",
                           "src/size_table.rs", "src/sort.rs", "src/lib.rs")
PS = [
P("C01", "Snapshot isolation: writing through one handle never changes another",
  "After a vector has been cloned, split or sliced, no operation on one of the resulting vectors (including writes through get_mut, iter_mut, focus_mut, guards, sorting and reversing) changes what any other vector, or any reader holding shared access, observes. Storage that may be shared is written only after the writer has obtained its own copy.",
  ["programs", "histories"], "every history of operations on every set of handles that share structure",
  "Tests clone a vector in a handful of shapes; sharing patterns (which node at which level is shared, with whom) are unbounded.",
  [B, N, R, V, F], [("copy on write through make_mut", B + " SharedPointerEntry::load_mut"), ("writable views of nodes", R + " mutable_view"), ("size tables unshared before change", B)],
  [("reference counts", "a node or size table may be owned by several vectors", B)], ["get/iter on every other handle"]),
P("C02", "Structural operations conserve the sequence of elements",
  "push, pop, append, prepend, split_off, slice_from_start, slice_to_end, extract_slice, insert and remove produce exactly the sequence their name promises: every element that was in the inputs is in exactly one output, once, in the same relative order. No restructuring of the tree loses, duplicates or reorders an element.",
  ["inputs", "histories"], "every vector (every tree shape) and every argument",
  "Random tests reach small trees; the restructuring paths (tall trees, lopsided spines, nodes that exactly fill or empty) depend on shapes no sample covers.",
  [V, B, R, S], [("node moves between spines and root", V), ("share_children_with / push_child / pop_child / pack_children", B), ("decant_into", R)],
  [("left_spine, root, right_spine", "their concatenation is the sequence", V)], ["iter, get, pop"]),
P("C03", "Reads and snapshots never clone elements or copy storage",
  "Operations that only have shared access to a vector (length, indexing, front and back, iteration, read cursors, searches, comparison, hashing, formatting and clone itself) never run an element's Clone and never copy a storage block.",
  ["programs", "inputs"], "every read-only operation on every vector",
  "A test that counts clones observes one operation on one shape; whether any path copies is a property of all call chains.",
  [V, F, B, N], [("clone copies reference counts only", V + " Clone"), ("load vs load_mut", B)], [], ["a counting Clone implementation"]),
P("C04", "Results depend only on arguments and contents",
  "Every operation is deterministic: its result and effect depend only on its arguments, the elements and the user's callbacks, never on time, environment, threads, addresses, reference counts, entropy or global state. No operation performs input or output.",
  ["programs", "inputs", "schedules"], "every operation, on every run and thread",
  "A flaky dependency shows only under the right environment; tests run in one.",
  [V, SO, F], [("sorting seeds its generator with a constant", V), ("no ambient effects", "whole crate")], [], ["repeated runs"]),
P("C05", "Handles cross threads exactly when it is sound",
  "A vector, cursor or iterator whose nodes are counted with Rc is never Send or Sync; one whose nodes are counted with Arc is Send, and is Sync, exactly when its elements are both Send and Sync.",
  ["programs", "schedules"], "every public handle type, every element type class",
  "A wrong marker compiles silently; tests never instantiate elements that are only Send or only Sync.",
  [V, F, R, B, L], [("unsafe impl Send/Sync", F), ("unsafe impl Send/Sync", R)], [], ["type checking of user programs"]),
P("C06", "Borrows obtained from a vector cannot outlive or alias it",
  "No safe program can use an element reference, cursor, iterator or guard after the vector it came from was dropped, moved or structurally changed, hold a mutable and any other reference to the same vector's elements at once, or use one to smuggle a shorter-lived element into the vector.",
  ["programs"], "every safe client program of the public API",
  "The guarantee is about programs that must not compile, which run-time tests cannot contain.",
  [V, F, R, N], [("lifetimes and variance of the public types", F), ("unsafe lifetime extension in iterators", V)], [], ["type checking of user programs"]),
P("C07", "Every element is dropped exactly once and no dead slot is ever read",
  "Each element moved into a vector is given back to the caller or dropped exactly once, whatever sequence of operations follows; the library never reads, drops or hands out a storage slot that does not hold a live element, and never overwrites or forgets one that does. This holds with and without the may_dangle feature.",
  ["histories", "inputs", "configurations"], "every fill level and rotation of every storage block, every operation on it",
  "A block has 64 x 65 states; tests touch few of the wrapped-around ones and do not count drops.",
  [R], [("front/len arithmetic modulo the width", R), ("MaybeUninit slots", R), ("Clone and Drop of the ring", R)],
  [("front, len", "slots front..front+len (mod width) are live, all others dead", R)], ["drop counters, miri"]),
P("C08", "A panic in user code never makes an element be dropped twice or read dead",
  "If an element's Clone or Drop, a comparator, a key function or a caller's iterator panics in the middle of an operation, no storage slot is afterwards dropped twice, read while dead, or handed out twice; at every point where user code runs, the bookkeeping of each storage block already describes exactly the slots that are live (or fewer).",
  ["fault_sequences"], "every user callback at every point of every operation",
  "No test panics inside a callback.",
  [R, V, SO], [("ring bookkeeping around moves", R), ("clone of a ring", R), ("sort swaps in place", SO)], [], ["panicking Clone/Ord/Drop under a drop counter"]),
P("C09", "The reported length is the number of elements",
  "After every operation, len() of every vector involved equals the number of elements it contains, and is_empty() is true exactly when len() is zero; cursors report the length of the part they cover.",
  ["inputs", "histories"], "every operation on every vector",
  "Tests compare lengths along sampled histories only.",
  [V, F, B], [("len field", V), ("size tables", S)], [("InternalVector::len", "number of elements", V)], ["len vs iteration"]),
P("C10", "Indexed access and sequential access see the same element",
  "For every index below the length, get, get_mut, get_mut_guarded, indexing, the cursors and the iterators all designate the same element: the one at that position of the sequence. The per-node size information used for indexed access always describes the node's actual children.",
  ["inputs", "histories"], "every index of every vector shape",
  "Wrong size information only shows for particular indices of particular unbalanced shapes.",
  [V, B, S, F], [("find_node_info_for_index", V), ("size tables kept in step with children", B), ("position_info_for", S)],
  [("SizeTable", "cumulative sizes of the children, in order", S)], ["get(i) vs iter().nth(i)"]),
P("C11", "Iterators yield every position once, from either end, and count exactly",
  "Each iterator, driven by any interleaving of next and next_back, yields every remaining position exactly once, front to back and back to front, then returns None for ever; size_hint is always exact. A call that returns an element lowers the remaining count by one and a call that returns None leaves it at zero.",
  ["histories"], "every interleaving of next and next_back on every iterator type",
  "Tests mostly iterate forward to the end; interleavings are unbounded.",
  [V, R], [("front/back counters", V), ("ring iterators", R)], [("front, back", "remaining positions are front..back", V)], ["double-ended iteration"]),
P("C12", "Range arguments mean the same in every operation",
  "Every operation that takes a range treats it like the standard library does: an included start begins at it, an excluded start after it, an unbounded start at zero; an included end ends after it, an excluded end before it, an unbounded end at the length. The operation acts on exactly those positions.",
  ["inputs"], "every kind of start and end bound, every operation taking a range",
  "Tests use a..b and .. almost exclusively; excluded starts and included ends are hardly ever passed.",
  [V, F], [("bound conversion, repeated in each operation", V), ("Focus::narrow", F)], [], ["results for all nine bound combinations"]),
P("C13", "Sorting and reversing only rearrange",
  "The sorting and reversing operations never lose, duplicate, create or replace an element, whatever the comparator answers and wherever it panics: they only exchange elements of the vector with each other.",
  ["inputs", "fault_sequences"], "every comparator, consistent or not, panicking or not",
  "Tests sort with well-behaved total orders.",
  [SO, V], [("mem::swap on cursor elements", SO)], [], ["multiset of elements"]),
P("C14", "Dual sorting applies one permutation to both vectors",
  "A dual sort moves the elements of the secondary vector exactly as it moves those of the primary: whenever two positions of the primary range are exchanged, the same two positions of the secondary are exchanged.",
  ["inputs"], "every input pair, every comparator",
  "Tests check a few random inputs with unique keys; divergence in one branch of the partition may need particular patterns of equal keys.",
  [SO, V], [("paired swaps", SO)], [], ["pairing of elements after the sort"]),
P("C15", "Equality, order and hash depend only on the sequence of elements",
  "Two vectors are equal exactly when they have the same length and equal elements position by position; their order is the lexicographic order of their elements; hashing feeds the hasher nothing but the elements in order and, at most, the length. Tree shape and sharing never matter.",
  ["inputs", "histories"], "every pair of vectors however they were built",
  "Tests compare vectors built the same way.",
  [V], [("PartialEq, PartialOrd, Ord, Hash impls", V)], [], ["==, cmp, hash of differently built vectors"]),
P("C16", "Out-of-range requests answer None and change nothing",
  "Indexed reads and writes at or beyond the length, pops and end accesses of an empty vector, and out-of-range cursor accesses return None (the panicking variants panic) and have no effect; requests within the length always answer Some.",
  ["inputs"], "every index, every vector, every cursor",
  "Tests probe a few indices on a few shapes.",
  [V, F, R], [("bounds tests in get / get_mut / find_node_info_for_index", V), ("cursor bounds", F)], [], ["get(len), pop on empty"]),
P("C18", "A cursor reaches exactly its part, and split halves are disjoint",
  "A cursor that was narrowed or split only ever gives access to the positions of its part, numbered from zero, and the two halves of a split cover the original part completely without overlapping: the left half is the positions before the split index, the right half those from it on.",
  ["inputs", "programs"], "every sequence of narrow and split on every cursor",
  "Tests rarely narrow or split a cursor that is already narrowed.",
  [F], [("range arithmetic in narrow and split_at", F)], [("Focus::range", "the part this cursor covers", F)], ["get on both halves"]),
P("C19", "Nodes stay uniform: all leaves at one depth, spines of equal height",
  "Restructuring keeps every tree uniform: children of a node are all of the same level, one below the node, and both spines have the same height, which is the root's level; the outermost nodes of each spine are not empty and inner nodes keep free slots, so that no later operation at either end can fail.",
  ["histories"], "every history of structural operations",
  "The invariant checker runs on sampled histories in debug builds only.",
  [V, B], [("complete_leaf, empty_leaf, fixup_spine_tops, append, split_off", V), ("level bookkeeping", S)], [("left_spine, right_spine", "one node per level below the root", V)], ["assert_invariants"]),
P("C21", "No operation gives up ownership without releasing it",
  "Dropping every handle releases everything the library allocated: no operation forgets, leaks or strands an element or a node, and every wrapper that suppresses automatic dropping is released by its owner's destructor on every path.",
  ["histories"], "every history, every destructor path",
  "No test measures memory or counts drops.",
  [F, R, B], [("ManuallyDrop and forget in the mutable cursor", F), ("Drop of the ring", R)], [], ["drop counters, allocation counters"]),
P("C22", "Range-restricted operations never touch positions outside the range",
  "A sort, reverse or search restricted to a range examines, compares and exchanges only elements at positions inside that range; everything outside is left as it was and is never passed to a user callback.",
  ["inputs"], "every range, every vector, every comparator",
  "Tests check the result inside the range, rarely that nothing outside was touched or examined.",
  [V, SO, F], [("splitting the cursor to the range", V), ("index arithmetic relative to range start", V)], [], ["a recording comparator"]),
P("C23", "Sorting yields a sorted range",
  "After a sort with a consistent total order the range is in non-decreasing order.",
  ["inputs"], "every input and total order",
  "Random inputs only.", [SO], [("three-way partition", SO)], [], ["is_sorted"]),
P("C24", "Searches return the exact range of equal elements",
  "equal_range and its variants return exactly the maximal range of positions comparing equal, or the insertion point when there is none, on sorted input.",
  ["inputs"], "every sorted input and every key",
  "Random inputs only.", [V], [("binary search loops", V)], [], ["linear scan"]),
P("C25", "Height, running time and stack depth stay logarithmic",
  "The height of the tree stays logarithmic in the number of elements for the operations documented to be balanced, end operations take amortised constant time, and sorting uses logarithmic stack.",
  ["histories", "inputs"], "every history", "Timing and depth are not asserted by any test.", [V, SO], [("fixup_spine_tops", V), ("pack_children", B)], [], ["height, stack depth"]),
]
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(d, "properties.jsonl"), "w") as f:
    for p in PS:
        f.write(json.dumps(p) + "\n")
