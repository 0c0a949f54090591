#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os

L = "src/lib.rs"; A = "src/inner/aligned.rs"; U = "src/inner/unaligned.rs"; S = "src/inner/sized.rs"
H = "src/helper.rs"; M = "src/marker.rs"; VS = "src/helper/valid_size.rs"; VA = "src/helper/valid_align.rs"
E = "emplacable/src/lib.rs"

def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files,
                        "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                        "mechanism": [dict(name=n, where=w) for n, w in mech],
                        "observe_at": observe, "hook_needed": hook}}

offsets = ("end offsets + metadata of every element", "decide where an element starts, how long it is and what its metadata is", A + ", " + U)

props = [
p("V01", "UnsizedVec is a faithful sequence for every kind of element",
  "After any history of pushes, inserts, pops, removals, in-place writes and capacity changes (by value, by unsizing coercion or through an emplacable), an UnsizedVec holds exactly the elements an ordinary list would hold, in the same order, each with its value, its slice length or dynamic type intact. This is so for every kind of element: sized, zero-sized, slices (also of zero-sized items), str, CStr, paths, structs with an unsized tail, and trait objects. What a pop or a removal hands out is exactly the element the list would give.",
  ["histories", "inputs"], "every operation history, every mix of element sizes, alignments and lengths, every position, every element kind",
  "The tests use short fixed scripts on [i32], [Box<i32>] and three trait objects; they never insert in the middle, never mix sizes and never reach most of the offset arithmetic.",
  [L, A, U, S, H], [("offset bookkeeping on insert/remove/push/pop", A + ", " + U), ("metadata recovery from a size", H)],
  ["len, get, index, iter", "the value emplaced by pop_into/remove_into"], [offsets]),

p("V02", "Every element is dropped exactly once or handed over exactly once",
  "Each value put into an UnsizedVec is, in the end, dropped exactly once, by the vec, by the receiver it was handed to, or by dropping the handle returned from a pop or removal; a value that is forgotten is never dropped, and a value that is still in the vec has not been dropped. Overwriting, clearing by dropping the vec, moving values between vecs and turning the vec into another type never duplicate or lose a value.",
  ["histories", "inputs"], "every history ending anywhere, every way of consuming what pop_into/remove_into return (emplace, drop, forget, leak the handle), every element kind",
  "One test drops boxed slices, without counting; no test forgets, drops the handle or checks counts.",
  [L, A, U, S, E], [("Drop of the vec", A + ", " + U), ("null-pointer protocol: drop instead of write", A + ", " + U + ", " + S), ("forget after a by-value copy", A + ", " + U)],
  ["destructor calls of the elements"]),

p("V03", "No operation reads or writes outside live memory, and every block is freed once",
  "Through the safe API, no operation of UnsizedVec touches memory outside blocks it currently owns, reads uninitialised bytes as element data, hands out references to different elements that overlap, or leaves a dangling reference. Every heap block is released exactly once with the size and alignment it was allocated with, and nothing remains allocated when the vec and everything taken out of it are gone.",
  ["histories", "inputs"], "every history of safe operations, every element layout, every allocator placement (blocks that move on every growth)",
  "Ordinary tests pass on many out-of-bounds or mis-sized accesses, and run no sanitizer.",
  [L, A, U, S, H, VS, VA, M], [("byte capacity and layout bookkeeping", A + ", " + U), ("layout arithmetic", VS)],
  ["allocator calls", "addresses of the references handed out", "AddressSanitizer", "debug UB checks"],
  [("ptr, byte capacity, align", "the block that holds the elements", A + ", " + U), offsets],
  "cfg(miri) only, to let the interpreter compile the crates"),

p("V04", "Elements stay intact and correctly aligned however alignments are mixed",
  "Every reference an UnsizedVec hands out is aligned for the element's actual type, at every position and at all times, whatever alignments were pushed, inserted or removed before (including over-aligned zero-sized elements). Adding an element of larger alignment re-pads all existing elements without changing any value, the reported alignment is a power of two never below that of any element, and it goes down only when the vec is asked to shrink.",
  ["histories", "inputs"], "every sequence of element alignments (1 to 4096 and more), sizes not multiple of the vec's alignment, inserts and removals between changes of alignment",
  "The tests have one vec of trait objects whose alignments are all at most that of usize, so re-padding never runs.",
  [U, L, VA, VS], [("re-padding upwards and downwards", U), ("padding of every element to the vec's alignment", U)],
  ["addresses from get/iter", "align()"],
  [("align", "alignment of the block and of every slot", U)]),

p("V05", "Reserved capacity is real: no reallocation or move within it",
  "Reserving (or creating with) element, byte and alignment capacity makes at least that much available on top of the current contents, reported capacities are never below what is in use, and exact reservations do not add bytes that the current spare capacity already covers. As long as the number of elements, their total (padded) bytes and their alignment stay within the reported capacities, adding elements by any route neither calls the allocator nor moves an existing element.",
  ["histories", "inputs"], "every reserve/try_reserve/with_capacity variant with every argument, then every way to add elements, for every element kind",
  "One test checks the byte capacity after pushing slices that just fit; it looks at no other route and never at the allocator.",
  [L, A, U, S], [("capacity arithmetic of the reserve family", L), ("reservation done by push_with/insert_with", A + ", " + U + ", " + S)],
  ["capacity, byte_capacity, align, byte_len", "allocator calls", "element addresses"],
  [("byte capacity / element capacity / align", "the three capacities", A + ", " + U)]),

p("V06", "Shrinking gives back memory without disturbing the contents",
  "No shrink operation changes the number, order, values or alignment-correctness of the elements, nor increases any capacity, and it never goes below the requested minimum (when capacity was above it) nor below what the contents need; this also holds when the allocator refuses to shrink. Shrinking to fit leaves no spare bytes and an alignment no larger than the elements require, and every later operation works as if the vec had been built that way.",
  ["histories", "inputs", "fault_sequences"], "every vec state, every shrink variant and argument (minimum bytes not a multiple of the alignment, minimum alignment between), every continuation, allocator failures",
  "The tests call shrink_to_fit three times, on vecs whose elements never need re-padding, and check nothing about capacities.",
  [U, A, S, L], [("re-padding downwards and its undo", U), ("shrink of the block", A + ", " + U), ("shrink in elements", S)],
  ["contents, capacities and addresses before and after", "allocator calls"]),

p("V07", "A failed reservation is an error value that leaves the vec unchanged",
  "Every try_reserve variant reports an impossible request (size overflow) or an allocator failure as an error, without panicking, and leaves contents and the vec's usability exactly as before; a success means the capacity is there. The infallible variants panic on overflow with the vec unchanged, and a non-power-of-two alignment is a panic only where alignment is dynamic.",
  ["inputs", "fault_sequences", "histories"], "every argument up to usize::MAX in each position, every allocator call failing in turn, in every vec state",
  "No test calls a try_reserve method, and none makes an allocation fail.",
  [L, A, U, S, VS, VA], [("checked arithmetic on sizes", VS), ("error mapping", L), ("order of fallible step and state update", A + ", " + U)],
  ["return values, panics", "contents, capacities and later behaviour"]),

p("V08", "A panic in user code never corrupts the vec or its elements",
  "If user code panics inside an operation (an emplacable's closure, an emplacer, an element's clone or destructor, an iterator, a failed allocation), no element is dropped twice, no uninitialised or already dropped value becomes reachable, and elements not involved keep their value. The vec stays usable afterwards and its later drop is clean (leaking is allowed); a panicking insert or push adds nothing.",
  ["fault_sequences", "histories"], "every user callback panicking at every call, in every vec state, for every element kind, followed by any further history",
  "No test panics inside an operation.",
  [A, U, S, L, E], [("guard that shifts elements back on unwind", A + ", " + U + ", " + S), ("metadata updated only after the closure returns", A + ", " + U)],
  ["contents and destructor calls after the unwind"]),

p("V09", "Iterators visit each element once, in order, from both ends",
  "Any interleaving of next, next_back, nth, nth_back, last, count, size hints, folding, searching and adaptor calls on the shared and mutable iterators yields exactly what a slice iterator over the same list would, including after exhaustion and after skipping. Mutable iteration never yields the same element twice or overlapping elements, and what is written through it is what is read later.",
  ["histories", "inputs"], "every call sequence on an iterator, every length and mix of sizes and alignments, every element kind",
  "The tests never iterate except in a doc example with a plain for loop.",
  [A, U, L], [("running start offset of the iterators", A + ", " + U), ("delegation of the public iterators", L)],
  ["items yielded: value, metadata, address"],
  [("start offset", "where the next front element begins", A + ", " + U)]),

p("V10", "Equality, order, hash, debug, serialisation and clone agree with the elements",
  "Comparing two UnsizedVecs for equality or order gives the lexicographic result over their elements (also between different element types), equal vecs hash equally, Debug prints and Serialize emits exactly the elements in order (with the right length), and indexing agrees with both. A clone is equal to its original and independent of it, and Default is an empty vec.",
  ["inputs"], "every pair of vecs, including prefixes, empty ones, incomparable elements, different histories with the same contents",
  "No test compares, hashes, serialises or clones a vec.",
  [L], [("trait impls over the iterators", L)], ["results of ==, cmp, partial_cmp, hash, fmt, serialize, clone"]),

p("V11", "Conversions between Vec and UnsizedVec, and unsizing, preserve everything",
  "Turning a Vec into an UnsizedVec and back keeps elements, order, capacity and the very same allocation, and converting the iterators does not lose their position. Unsizing an UnsizedVec of sized elements into slices or trait objects keeps every element with the right value, length or dynamic type, and the result supports every later operation, with each element dropped exactly once.",
  ["inputs", "histories"], "every length and spare capacity, element size and alignment (also zero-sized and over-aligned), target kind, and every later history",
  "Only a doc example unsizes a vec, without looking at the result.",
  [L, A, U], [("adoption of a sized vec's allocation", A + ", " + U)], ["contents, capacities, allocator calls", "destructor calls"]),

p("V12", "Pushing is amortised constant time",
  "Adding n elements one after the other to an initially empty UnsizedVec, by any push route or by inserting at the end, costs a number of allocator calls logarithmic in n and moves a total number of bytes linear in the final contents. Alternating pops and pushes around any size, or shrinking in between only by request, causes no reallocation storm, and spare capacity stays proportional to the contents.",
  ["histories", "inputs"], "every n, element size distribution, push route and kind of element",
  "No test counts allocations, and each pushes at most six elements.",
  [L, A, U, S], [("geometric growth", L), ("reservation inside push_with", A + ", " + U)], ["allocator calls and bytes moved as n grows"]),

p("V13", "Bulk construction and extension add exactly the given items in order",
  "Collecting or extending from an iterator of emplacables, and the list macros, yield the previous contents followed by exactly the items of the iterator in order, whatever its size hint says (too small, too large in its lower bound within reason, or unknown). When the iterator or an item panics half way, the items added so far stay and the rest are dropped exactly once.",
  ["inputs", "fault_sequences"], "every iterator (lengths, size hints, panics at any point), every mix of item sources, every element kind",
  "Tests use the macros once or twice and never extend or collect.",
  [L, A, U, S], [("extend loop with its reservation", L), ("macros", L)], ["contents after the call", "destructor calls"]),

p("V14", "Out-of-range requests are refused and change nothing",
  "Getting an element at or beyond the length gives None and indexing there panics; inserting is accepted exactly at positions 0 to the length and removing exactly at positions below it, and otherwise panics; popping an empty vec gives None. A refused request leaves the vec exactly as it was and drops the rejected value exactly once.",
  ["inputs", "histories"], "every index including 0, len-1, len, len+1 and usize::MAX, in every vec state and element kind",
  "No test uses an out-of-range index.",
  [L], [("bounds checks of get/index/insert/remove", L)], ["return values, panics, contents, destructor calls"]),

p("V15", "Memory layout and number of heap blocks are as documented",
  "A new vec owns no heap block; a vec of sized elements owns at most one and is laid out like a Vec, and a vec of unsized elements owns at most two. Slices, str and other elements of fixed alignment lie end to end without padding in one block in order; other elements lie in order, each at the next multiple of the vec's alignment, with the byte length being the sum of the sizes so padded.",
  ["histories", "inputs"], "every history and element kind",
  "No test looks at addresses or counts blocks.",
  [L, A, U, S, M], [("offsets without padding / with padding", A + ", " + U), ("specialisation on the element kind", "src/inner.rs")],
  ["addresses of the elements, byte_len", "live heap blocks"]),

p("E01", "Every conversion through an emplacable preserves the value",
  "Whatever an emplacable is made from (a sized value, box, vec, borrowed slice or string, C string, OS string, path, array of emplacables, another emplacable, an unsizing coercion) and wherever it is emplaced (box, pinned box, Rc, Arc, vec, string types, the stack, an UnsizedVec), the result equals the original value with its length or dynamic type. Borrowed sources are left unchanged and owned items are cloned exactly once from them.",
  ["inputs"], "every documented source x destination pair, every length (0 included), item type (Copy or only Clone, zero-sized, over-aligned, with spare capacity)",
  "The test of the conversions only checks that they compile and run: it never looks at the resulting values.",
  [E], [("the closures behind each conversion", E)], ["resulting values"]),

p("E02", "A value in an emplacable is consumed exactly once",
  "Emplacing an emplacable moves its value to the destination without dropping it, dropping the emplacable drops the value exactly once, and forgetting it never drops it. Memory of a consumed source (box, vec, string) is released exactly once in all three cases. (The items of an array or iterator of emplacables that is forgotten or refused are never evaluated, so what they own may leak; it is never dropped twice.)",
  ["histories", "inputs"], "every source, combinator (unsize, arrays, from_iter, str to bytes) and fate (emplace, drop, forget)",
  "No test counts drops or blocks.",
  [E], [("ManuallyDrop / forget around each copy", E), ("Drop of Emplacable", E)], ["destructor calls", "allocator calls"]),

p("E03", "Emplacers get the exact layout and metadata, and one pointer use",
  "Every emplacable announces to its emplacer exactly the size, alignment and metadata of the value it will write, writes all of that value and nothing outside it when given memory, and writes nothing when given a null pointer. Every destination frees its memory with the layout it was allocated with, so that memory is never lost, over-allocated or freed with another layout.",
  ["inputs"], "every source and combinator, with lengths and capacities that differ, zero-sized values, all alignments",
  "No test supplies its own emplacer or looks at layouts.",
  [E, M], [("layout computed by each conversion", E)], ["arguments received by a custom emplacer", "bytes around the destination", "allocator calls"]),

p("E04", "Arrays and iterators of emplacables assemble the exact slice or panic",
  "Assembling a slice or an array from emplacables yields each item at its position, in order, each consumed exactly once, evaluated only when emplaced. If the iterator's announced length is wrong, the operation panics or uses exactly the announced number of items; it never exposes an uninitialised slot, writes out of bounds or drops an item twice.",
  ["inputs", "fault_sequences"], "every length, every honest or lying exact-size iterator, every item kind (also zero-sized), emplace/drop/forget",
  "The one array test has four integers and checks nothing; from_iter is not tested.",
  [E], [("from_iter and its length check", E), ("array assembly", E)], ["resulting slice, panics, destructor calls"]),

p("E05", "A panic while emplacing neither leaks the block nor drops twice",
  "If the closure producing a value panics while being emplaced into a box, Rc, Arc or vec, the destination's memory is released and no value is dropped twice. The same holds when the code given an emplacable for a by-value argument panics, or an item of an array, slice or cloned source panics half way: every value is dropped at most once, and none is reachable afterwards.",
  ["fault_sequences"], "every producer, panicking at every step (each item, each clone, each destructor), every destination",
  "No test panics.",
  [E], [("deallocation guard of box_new_with", E), ("forget after the closure in with_emplacable_for", E)], ["destructor calls", "live heap blocks after the unwind"]),

p("E06", "By-value unsized tools move values without copying twice or allocating extra",
  "Coercing a sized value to an unsized one by value, building a str by value from a literal, and boxing, pinning or reference-counting an unsized value passed by value all deliver exactly that value, with the right metadata and alignment, moved once and dropped once. The by-value coercions use no heap, and the boxing functions allocate exactly one block of the value's layout (none for zero-sized values in a box).",
  ["inputs"], "every sized source type (size, alignment, zero-sized) and unsized target, nesting of the macros, literals of any content",
  "The tests use unsize! on one array type and never look at drops or the heap.",
  [E], [("stack-backed allocator behind unsize!", E), ("box_new and its wrappers", E)], ["resulting values, destructor calls, allocator calls"]),
]
assert len({q["id"] for q in props}) == len(props)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in props:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(props), "properties")
