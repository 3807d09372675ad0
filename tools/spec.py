#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/spec.py)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, tech=None, note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, tech=tech, note=note, na=na, state=state))


p("C01", "Release and exclusive takeover of shared memory are correctly ordered",
  "Whenever one of several handles to shared memory is dropped, everything done through it happens before the memory is freed, and whoever frees the memory, or reuses it exclusively after finding itself the only owner, has synchronised with all other owners' uses. Memory is freed exactly by the owner that was last, never by one that was not, and lazily created shared state is only reached through a pointer whose publication it has synchronised with.",
  ["schedules"], "every interleaving of clones, drops, conversions and lazy initialisations of the same shared memory on any number of threads, under the language's memory model",
  "The tests are single threaded, and a weak ordering shows up only on particular interleavings on weakly ordered hardware.",
  ["src/shared_bytes.rs", "src/external.rs", "src/bytes_1/shared_bytes.rs", "src/bytes_1/external.rs", "src/interning/static.rs"],
  [("decrement with release, fence before free", "src/shared_bytes.rs Drop for SharedBytes"), ("decrement with release, fence before free", "src/external.rs ExtBytes drop"), ("unique takeover", "src/external.rs take_inner, src/bytes_1/shared_bytes.rs"), ("lazy publication", "src/interning/static.rs")],
  ["dropping handles on several threads", "converting a uniquely owned buffer into an owned vector"],
  tech="effect analysis of atomic operations along every abstract path of the compiler's MIR (own abstract interpreter): orderings of decrements, acquires before destruction and takeover, publication pairs",
  note="All paths of every function that reaches an atomic operation, including entries of function-pointer tables; paths beyond the analysis budget are listed as undecided in the evidence.")

p("C02", "Every reference to shared memory is counted exactly once",
  "Each operation that yields another handle to shared memory adds exactly one to its count, and each handle given up takes away exactly one, on every way through the operation. So shared memory is never freed while a handle remains, and never leaked once all are gone; a value converted, split, narrowed to nothing or replaced gives up exactly the handles it no longer holds.",
  ["histories", "inputs"], "every sequence of clone, slice, split, convert, take and drop operations on shared and external data, for every argument",
  "A test drops a few handles in one order; a leak or an over-release needs a particular conversion on a particular representation and is invisible without a leak or use-after-free detector.",
  ["src/shared_bytes.rs", "src/external.rs", "src/bytedata.rs", "src/bytes_1/shared_bytes.rs", "src/bytes_1/external.rs", "src/bytes_1/bytedata.rs"],
  [("count kept beside the data", "src/shared_bytes.rs SharedBytesMeta"), ("count in the wrapper", "src/external.rs ExtBytesWrapper")],
  ["clone, sliced, into_sliced, make_sliced, take_bytes, split_at, into_shared, From/Into conversions, drop"],
  tech="linear-ownership (typestate) accounting on every abstract path of the MIR: handles in plus increments equal handles out plus decrements",
  note="Per returning path of every function that handles shared data; unwinding paths are not counted.")

p("C03", "Memory returns to the allocator with the layout it was obtained with",
  "Every block obtained from the allocator is given back, or resized, with the size and alignment it was allocated with and starting at its first byte, whatever length, capacity and alignment were asked for. Requested alignments hold for the stored bytes, and a size computation never wraps around to a smaller block.",
  ["inputs", "histories"], "every length, capacity, alignment and growth history of builders, shared buffers and external values",
  "Tests use a few sizes and default alignment; a wrong layout passes silently with the system allocator.",
  ["src/shared_bytes.rs", "src/shared_bytes_builder.rs", "src/external.rs", "src/queue/linked_root.rs"],
  [("layout computation", "src/shared_bytes.rs compute_size, src/shared_bytes_builder.rs"), ("wrapper layout", "src/external.rs")],
  ["allocator calls"],
  tech="symbolic layout agreement over MIR paths: the size and alignment of each release and resize is entailed to equal those of the block's allocation, or of the invariant its header stores",
  note="Linear integer entailment over all abstract paths of every function that reaches the allocator.")

p("C04", "No view, copy or write ever leaves its buffer",
  "For every argument, a view handed out, a block copied and a byte written lies within the memory that belongs to the value it was obtained from. A position or range beyond the end is refused by a panic or an empty answer before any memory is touched, also where adding the positions overflows.",
  ["inputs"], "all ranges, positions, lengths and capacities up to the largest integers, for every representation",
  "Tests pass a handful of small in-range arguments, and an out-of-range access need not crash.",
  ["src/bytedata.rs", "src/byte_chunk.rs", "src/shared_bytes.rs", "src/shared_bytes_builder.rs", "src/macros.rs", "src/stringdata.rs"],
  [("range checks", "src/bytedata.rs check_range_bounds, src/shared_bytes.rs sliced/into_sliced/make_sliced"), ("capacity checks", "src/shared_bytes_builder.rs extend_from_slice/reserve/apply_unfilled")],
  ["slices returned, memory copied"],
  tech="bounds obligations on every raw view, pointer copy and indexed write of the MIR's abstract paths, discharged by linear integer entailment from the path condition and the representation invariants",
  note="Obligations that depend on values the domain cannot express are reported as undecided, not as violations.")

p("C05", "Slicing, taking and splitting give exactly the requested bytes",
  "A subrange of byte or text data contains exactly the bytes at those positions, for every representation and every form of range, and an in-place or consuming variant agrees with the copying one. Taking or splitting yields two parts that together are the original bytes in order, cut exactly where requested, and a range that does not fit is refused rather than adjusted.",
  ["inputs"], "every representation, every kind of range bound and every position up to the largest integers",
  "Tests slice a few constants of one or two representations at small offsets; the arms for other representations and bounds go unexercised.",
  ["src/bytedata.rs", "src/byte_chunk.rs", "src/shared_bytes.rs", "src/stringdata.rs", "src/macros.rs"],
  [("per representation slicing", "src/bytedata.rs sliced, into_sliced, make_sliced, take_bytes, split_at"), ("offset arithmetic", "src/shared_bytes.rs, src/external.rs")],
  ["as_slice of the results"],
  tech="content specification of each operation checked against every abstract path of its MIR, one representation at a time, by linear entailment on (buffer, offset, length)",
  note="Operations and representations covered are listed in the evidence; data-dependent searches are covered by C14 and C19 where they can be.")

p("C06", "Text values always hold valid UTF-8",
  "Through safe operations no text value can ever hold bytes that are not valid UTF-8, and text is never cut inside a character: a range that would do so is refused. Only bytes that were validated, or that came from text and were cut at character boundaries, become text.",
  ["inputs", "histories"], "every byte content and every cut position, in all operations that produce or shorten text",
  "Tests use ASCII or a few characters; a cut inside a multi-byte character needs a particular position and content.",
  ["src/stringdata.rs", "src/queue/string_queue.rs", "src/shared_str_builder.rs", "src/macros.rs", "src/serde_1/stringdata.rs", "src/nom_7/stringdata.rs", "src/nom_7/stringqueue.rs", "src/queue/drain.rs"],
  [("validation on entry", "src/stringdata.rs try_from_bytedata, try_from_shared"), ("boundary checks", "src/stringdata.rs make_sliced, src/queue/string_queue.rs slice/split_off/drain")],
  ["as_str of the results"],
  tech="validity dataflow over MIR paths: every point where bytes are reinterpreted as text needs a provenance of validation, or of text cut at positions established to be character boundaries",
  note="Unsafe constructors are assumed to be called as their documentation demands; the check covers all callers inside the crate.")

p("C07", "Borrowed views never outlive or alias what they point into",
  "No program of safe code that compiles can keep a slice, string, iterator or drain after the value it points into was dropped, moved, shortened or grown, or use borrowed data beyond the lifetime it was borrowed for. Data whose lifetime is extended has been copied or is owned, and mutable views are only given on exclusive access.",
  ["programs"], "every safe client program",
  "A test is a program that compiles; what must not compile cannot be tested by running anything.",
  ["src/bytedata.rs", "src/stringdata.rs", "src/shared_bytes.rs", "src/shared_bytes_builder.rs", "src/shared_str_builder.rs", "src/byte_chunk.rs", "src/queue", "src/byte_string_render.rs", "src/macros.rs", "src/external.rs"],
  [("lifetimes in signatures", "public functions of all types")],
  ["compiler verdict on client programs"],
  tech="signature lint over all public functions of the type-checked crate, plus compile-fail witness programs with compiling twins",
  note="The lint covers every reachable safe function; witnesses cover one program per accessor and per invalidating operation.")

p("C08", "Only data that may cross threads can cross threads",
  "Handles to bytes and text can be sent to and shared between threads, and doing so is sound: a value that is bound to its thread, or that may not be shared, is refused as shared external data at compile time. No type asserts thread safety by hand for contents it does not control.",
  ["programs"], "every safe client program and every external value type",
  "Running tests cannot show that an unsound program is refused, and a data race needs an interleaving.",
  ["src/external.rs", "src/bytedata.rs", "src/shared_bytes.rs", "src/shared_bytes_builder.rs", "src/queue/drain.rs", "src/queue/linked_root.rs", "src/queue/linked_node_leaf.rs", "src/bytes_1/mod.rs"],
  [("bounds of the external data trait", "src/external.rs ExternalBytes"), ("manual Send and Sync implementations", "src/external.rs, src/queue, src/bytes_1")],
  ["compiler verdict on client programs"],
  tech="audit of every hand-written Send/Sync implementation on the type graph, plus compile-fail witness programs with compiling twins",
  note="All manual implementations of the crate and all public handle types.")

p("C09", "A queue's length and chunk count always match its content",
  "After any operation, or an iterator or drain dropped midway, the length a queue reports is the number of bytes its chunks hold, the chunk count is the number of chunks, and it is empty exactly when both are zero. No operation that succeeds loses, duplicates or miscounts a chunk.",
  ["histories", "inputs"], "every sequence of pushes, pops, consumption, slicing, splitting, appending, draining, replacing and extending, with chunks of any size including empty",
  "Tests compare a few histories with small queues that never exceed one node.",
  ["src/queue/byte_queue.rs", "src/queue/linked_root.rs", "src/queue/string_queue.rs", "src/queue/drain.rs", "src/queue/chunk_iter.rs", "src/queue/byte_iter.rs"],
  [("byte counter next to the chunk list", "src/queue/byte_queue.rs remain"), ("chunk counter", "src/queue/linked_root.rs")],
  ["len, chunk_len, is_empty after each operation"],
  tech="ghost-sum accounting over MIR paths: on each path the change of the stored byte counter equals the sum of lengths of chunks added minus removed",
  note="Chunk list primitives are summarised by ghost contracts that C18 checks.")

p("C10", "Reading and writing adapters move exactly what they report",
  "Reading from or writing to byte data, text, builders and queues through standard I/O, buffer or HTTP body interfaces transfers exactly the number of bytes reported, which is the smaller of what was available and what fitted; the source advances by exactly that, and the right bytes arrive at the right place. Buffers larger or smaller than the data, empty buffers, and vectored requests never panic.",
  ["inputs"], "all buffer sizes, vectored requests and positions",
  "Tests use buffers of one size relation.",
  ["src/std.rs", "src/bytes_1/bytedata.rs", "src/bytes_1/queue.rs", "src/bytes_1/shared_bytes.rs", "src/bytes_1/shared_bytes_builder.rs", "src/http_body_04.rs", "src/http_body_1.rs"],
  [("Read, Write, BufRead, Buf, BufMut, Body implementations", "src/std.rs, src/bytes_1, src/http_body_04.rs, src/http_body_1.rs")],
  ["returned counts, buffers and remaining data"],
  tech="panic-freedom and transfer accounting over MIR paths with linear entailment",
  note="Every adapter method is analysed on every abstract path.")

p("C11", "Equality, ordering and hashing depend on the bytes alone",
  "Two values of any of the byte or text types compare equal exactly when their bytes are equal, order as their bytes do, and equal values hash alike, whatever their representation, chunking, capacity or sharing. Comparison in either direction, and in constant evaluation, agrees.",
  ["inputs"], "all pairs of values over all representations and chunkings",
  "Tests compare a few values of a few representation pairs.",
  ["src/bytedata.rs", "src/stringdata.rs", "src/shared_bytes.rs", "src/byte_chunk.rs", "src/queue/byte_queue.rs", "src/queue/string_queue.rs", "src/macros.rs", "src/shared_bytes_builder.rs", "src/shared_str_builder.rs"],
  [("comparison implementations", "impl PartialEq, Ord, Hash of all types")],
  ["==, cmp, hash of values"],
  tech="relational dataflow over MIR: each comparison implementation is reduced to which contents it compares and how its result is used; loops are checked against an element-wise scan rule",
  note="Loops of an unrecognised shape are reported as undecided.")

p("C12", "Shared bytes never change while anyone else can see them",
  "Bytes that more than one handle can see are never written, and memory that another handle can reach is never taken over, resized or turned into a mutable buffer. Writing happens only to memory not yet shared, or after establishing that no other handle exists.",
  ["histories", "schedules"], "all sequences of sharing, building and converting",
  "Tests look at values after sequences in which no handle is shared at the moment of takeover.",
  ["src/shared_bytes.rs", "src/shared_bytes_builder.rs", "src/bytes_1/shared_bytes.rs", "src/bytes_1/external.rs", "src/external.rs"],
  [("uniqueness test before takeover", "src/bytes_1/shared_bytes.rs, src/external.rs take_inner")],
  ["contents of other handles"],
  tech="effect analysis over MIR paths: every write, resize or release of memory reached through a shared handle requires a path condition establishing a count of one, or a fresh allocation",
  note="All functions that can reach shared memory.")

p("C13", "A value is only ever read as the representation it holds",
  "The kind of a byte value is determined by its stored tag for every possible tag byte, each constructor stores the tag of what it stores, and every operation reads the value only as that kind. Changing a value's kind replaces its whole representation, and flags kept beside the tag survive every operation that should keep them.",
  ["inputs", "histories"], "every tag byte, constructor and operation",
  "Reading a wrong representation yields plausible values in most tests; the tag space is only sampled.",
  ["src/bytedata.rs", "src/byte_chunk.rs", "src/external.rs", "src/shared_bytes.rs"],
  [("tag classification", "src/bytedata.rs DataKind::kind"), ("union of representations", "src/bytedata.rs ByteData")],
  ["behaviour of each operation on each representation"],
  tech="tag dataflow: constant evaluation of the classifier's MIR over the whole tag domain, and typestate of the union's active member on every abstract path",
  note="Exhaustive over the 256 tag bytes; union reads on every path of every function.")

p("C14", "Every iteration and search makes progress and ends",
  "Every iterator over finite data ends after finitely many steps whatever the data, separator or limit (empty ones included), and every search, split and conversion terminates. Each step that does not finish consumes part of what remains.",
  ["inputs"], "all data, separators and limits, including empty ones",
  "Tests use separators that occur in the data once or twice; non-termination needs an unusual one.",
  ["src/bytedata.rs", "src/stringdata.rs", "src/queue/split.rs", "src/queue/byte_queue.rs", "src/queue/byte_iter.rs", "src/queue/char_iter.rs", "src/char_indicies.rs", "src/macros.rs"],
  [("splitting iterators", "src/bytedata.rs split_on, src/queue/split.rs"), ("loops over chunks", "src/queue/byte_queue.rs")],
  ["number of items yielded"],
  tech="ranking-function search over the loops of the MIR and progress of iterator state on every path that yields an item",
  note="Loops without a derivable ranking are reported as undecided.")

p("C15", "Every feature combination builds and respects no_std",
  "The crate compiles with every combination of its features, and without the standard-library feature it uses nothing that needs the standard library, without the allocation feature nothing that needs an allocator. Turning a feature on never removes what another one needs.",
  ["configurations"], "the feature combinations a user can select",
  "The tests build one feature set.",
  ["Cargo.toml", "src/lib.rs"],
  [("cfg attributes", "throughout src")],
  ["compiler verdict per combination"],
  tech="type-checking of 42 feature combinations, and a query over all resolved items for references outside the allowed crates",
  note="42 of the 2^14 combinations: each feature alone, with alloc, with queue, and the large unions.")

p("C16", "Operations promised not to copy keep using the same memory",
  "Cloning, slicing, splitting, wrapping and converting data that is static, borrowed, shared or external refers to the same bytes in memory, with no allocation and no copy; only data that is too short-lived or too small to be shared is copied. Data made static or shared on request is no longer tied to the borrow it came from.",
  ["inputs"], "every representation, range and conversion",
  "Tests compare contents, which a silent copy leaves equal.",
  ["src/bytedata.rs", "src/stringdata.rs", "src/shared_bytes.rs", "src/external.rs", "src/bytes_1/bytedata.rs", "src/bytes_1/shared_bytes.rs"],
  [("handles to the same buffer", "src/bytedata.rs sliced, clone; src/bytes_1 conversions")],
  ["addresses of the resulting slices, allocations"],
  tech="provenance and allocation effects over MIR paths: results are views of the same base, with no allocation or copy event on the path",
  note="For the operations and representations listed in the evidence.")

p("C17", "Data handed to and taken back from bytes::Bytes stays intact",
  "A buffer converted to the widely used Bytes type and back has the same bytes, its operations (clone, slice, split, unique access, conversion to a vector, drop) act on the same memory and on one reference count, and foreign buffers are recognised as what they are. The assumed layout and operation table of that foreign type match the version built against.",
  ["inputs", "histories", "configurations"], "all buffers and operations on them after conversion in either direction",
  "Tests convert one buffer each way; a mismatched table or layout misbehaves only for the operations tests do not call.",
  ["src/bytes_1/mod.rs", "src/bytes_1/shared_bytes.rs", "src/bytes_1/external.rs", "src/bytes_1/bytedata.rs"],
  [("mirrored layout and operation table", "src/bytes_1/mod.rs"), ("operation tables", "src/bytes_1/shared_bytes.rs, src/bytes_1/external.rs")],
  ["Bytes operations after conversion"],
  tech="type-layout comparison of the mirrored foreign structures, and contract checks of each operation-table entry over its MIR paths",
  note="Against the version of the foreign crate the build resolves.")

p("C18", "The chunk list of a queue stays well formed",
  "After any sequence of operations a queue's chunks are linked in order from first to last in both directions with consistent counts and positions, every chunk is owned by exactly one place, and dropping the queue releases each chunk and node exactly once. No operation reads or releases a slot that holds no chunk.",
  ["histories"], "every sequence of pushes and pops at either end, appends, drops and partial iterations",
  "Tests stay within few nodes and push mostly at one end; ring wrap-around inside nodes needs particular histories.",
  ["src/queue/linked_root.rs", "src/queue/linked_node_data.rs", "src/queue/linked_node_leaf.rs", "src/queue/linked_iter.rs", "src/queue/chunk_iter.rs"],
  [("ring buffer of slots in each node", "src/queue/linked_node_data.rs"), ("linked nodes", "src/queue/linked_root.rs, src/queue/linked_node_leaf.rs")],
  ["order and number of chunks popped or iterated"],
  tech="inductive invariant checking of the ring-buffer arithmetic and slot initialisation (typestate) on every MIR path, and link/ownership effects of node insertion and removal",
  note="One-step induction over each primitive operation.")

p("C19", "Search results and parser adapters report true byte positions",
  "A position reported by a search over byte or text data or queues is a byte position within the data at which the searched pattern occurs, and cutting there is possible. Parser adapters count, index and cut in bytes of the original input and return the two parts in the order and with the incompleteness that the parser interface prescribes.",
  ["inputs"], "all data, patterns, chunkings and parser inputs",
  "Tests search ASCII data of one chunk, where characters and bytes coincide.",
  ["src/nom_7/bytedata.rs", "src/nom_7/bytequeue.rs", "src/nom_7/stringdata.rs", "src/nom_7/stringqueue.rs", "src/queue/byte_queue.rs", "src/bytedata.rs"],
  [("parser adapters", "src/nom_7"), ("searches", "src/queue/byte_queue.rs find_slice, find_byte")],
  ["returned positions and parts"],
  tech="content specification of each adapter checked against every abstract path of its MIR",
  note="Methods covered are listed in the evidence.")

p("C20", "A panic in a caller's code leaves every value valid",
  "When a closure, iterator or conversion supplied by the caller panics in the middle of an operation, no value is dropped twice, leaked memory stays unreachable, and every structure that survives can still be used and dropped. Bytes that were not initialised never become visible because of it.",
  ["fault_sequences", "inputs"], "every call out to caller-supplied code in every operation",
  "No test panics inside a callback.",
  ["src/shared_bytes_builder.rs", "src/queue/byte_queue.rs", "src/queue/string_queue.rs", "src/bytedata.rs", "src/stringdata.rs", "src/external.rs"],
  [("counters are updated after the callback returns", "src/shared_bytes_builder.rs apply_unfilled")],
  ["state after catching the unwind"],
  tech="exception-safety dataflow: at each call to caller-supplied code, no live value is duplicated bitwise and no counter claims what is not yet stored",
  note="")

SETUP = "python3 engine/prep.py setup"


def main():
    claimed = [x for x in P if x["na"] is None and os.path.exists(os.path.join(V, "checks", x["id"].lower() + ".py"))]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            a = {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]], "observe_at": x["observe"], "hook_needed": None}
            if x["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in x["state"]]
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["qtext"]}, "why_tests_cant": x["why"], "anchors": a}) + "\n")
    m = {
        "version": 1,
        "setup_cmd": SETUP,
        "checks": [{"property": x["id"], "quick_cmd": "python3 check.py %s" % x["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % x["id"], "technique": x["tech"], "level": "other", "level_note": x["note"]} for x in claimed],
        "not_applicable": [{"property": x["id"], "reason": x["na"] or "no check built yet"} for x in P if x not in claimed],
        "notes": "Static analysis of the compiler's MIR by an abstract interpreter of our own (driver/, engine/); see DESIGN.md.",
    }
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print("claimed", [x["id"] for x in claimed])


main()
