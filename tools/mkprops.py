"""Writes /verif/properties.jsonl."""
import json, os
P = []
B = "src/bytes.rs"
MECH = {
 "C01": [("window arithmetic of slicing and splitting", B + " shrink_to, split_at"), ("inline representation and its length byte", B + " inline_unchecked, len, as_slice")],
 "C02": [("retain/release table chosen per owner", B + " BytesVt, From impls"), ("release on drop, retain on clone", B + " Drop, noalloc_clone")],
 "C03": [("borrowed = no release function", B + " BytesVt::is_borrowed, upgrade, noalloc_upgrade"), ("inlining threshold", B + " *_will_allocate, copied_from_slice")],
 "C04": [("ownership transfer by raw parts", "src/boxed.rs, src/slice.rs, src/vec.rs, src/string/"), ("with_rust_mut write-back guard", "src/vec.rs, src/string/_mod.rs")],
 "C05": [("single scan for the nul byte", "src/char_p.rs TryFrom impls"), ("compile-time check of literals", "src/_lib.rs c!, src/proc_macro/c_str.rs")],
 "C06": [("erased environment pointer, typed call shim", "src/closure/"), ("release_vtable/retain functions", "src/closure/boxed.rs, src/closure/arc.rs")],
 "C07": [("vtable of shims per concrete type", "src/proc_macro/derives/dyn_trait/"), ("release_vptr/retain_vptr per owner kind", "src/proc_macro/derives/dyn_trait/coercions.rs")],
 "C08": [("poll shim writing the output slot", "src/dyn_traits/futures/_mod.rs"), ("spawn through an oneshot channel / abortable handle", "src/dyn_traits/futures/executor.rs")],
 "C09": [("CType::is_valid per type", "src/layout/impls.rs, src/layout/macros.rs"), ("generated is_valid of enums and structs", "src/proc_macro/derives/repr_c/")],
 "C10": [("generated #[repr(C)] layout twin", "src/proc_macro/derives/c_type/struct_.rs"), ("size and alignment assertions of from_raw/into_raw", "src/layout/_mod.rs")],
 "C11": [("definer's define-once set", "src/headers/definer.rs"), ("per-type define_self in dependency order", "src/headers/languages/c.rs, src/layout/_mod.rs")],
 "C12": [("abort-on-unwind guard around the body", "src/proc_macro/ffi_export/fn_/mod.rs"), ("checked from_raw of arguments", "src/layout/_mod.rs from_raw_unchecked")],
 "C13": [("tag + payload representation", "src/option.rs")],
 "C14": [("io::Result plumbed through every definition", "src/headers/"), ("insert-or-fail of names", "src/headers/definer.rs, src/headers/_mod.rs")],
 "C15": [("delegation to the shown slice", "src/bytes.rs, src/slice.rs, src/vec.rs, src/string/, src/char_p.rs"), ("serde visitor", B + " BytesVisitor")],
 "C16": [("auto-trait opt-ins with bounds on the counterpart", "src/ unsafe impl Send/Sync"), ("lifetime parameters and variance markers", "src/ PhantomData fields")],
 "C17": [("per-language define_self", "src/headers/languages/csharp.rs, src/headers/languages/python.rs")],
 "C18": [("macro input checks", "src/proc_macro/derives/, src/proc_macro/ffi_export/"), ("concreteness bounds on arguments", "src/layout/_mod.rs")],
}
def p(id, title, statement, over, text, why, files, symbols=None):
    a = {"files": files, "mechanism": [dict(zip(("name", "where"), m)) for m in MECH[id]]}
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))

p("C01", "Bytes always show exactly the bytes their history says",
  "Whatever way a byte-string value was built (static, borrowed, inlined, copied, or backed by a shared or unique owner) and whatever sequence of clones, slicings, splits, reads, upgrades, moves and conversions back to its owner it went through, it shows exactly the window of the original contents which that history denotes. A request outside the value's bounds panics or returns the value, and changes nothing.",
  ["histories", "inputs"], "all histories of public operations on any number of values, all lengths around the inlining threshold, all range-bound kinds including the largest usize",
  "the existing tests slice 10..100-byte values of two owners at random in-range points; inlined values, mixed bound kinds, out-of-range requests and longer histories are not reached",
  ["src/bytes.rs"], ["Bytes"])
p("C02", "A Bytes owner is released exactly once, after its last holder",
  "The storage behind byte-string values stays allocated and unchanged while any value still shows it, on any thread, and is released exactly once when the last such value goes away, by whatever path (drop, slicing down to an inlined copy, a panicking consuming call, conversion). Retains and releases seen by a custom owner balance and carry the arguments it was registered with.",
  ["histories", "schedules"], "all histories of public operations on values sharing owners of every supported kind, executed on one or several threads",
  "tests never count references, so an early release or leak goes unseen unless it crashes",
  ["src/bytes.rs"], ["Bytes", "BytesVt"])
p("C03", "Bytes upgrades never outlive a borrow, and allocation forecasts are exact",
  "An upgraded byte-string value never refers to borrowed data: it is static, owned, inlined or a copy. The no-allocation variants of clone and upgrade never allocate and succeed exactly when no copy into new storage is needed, and the two forecasts say precisely whether the corresponding call would allocate.",
  ["histories", "inputs"], "all owners, all lengths around the inlining threshold, after any history of slicing and sharing",
  "the doc examples try one long and one short string; no test outlives a borrow or counts allocations",
  ["src/bytes.rs"], ["Bytes"])
p("C04", "Owned FFI containers keep their contents and free them exactly once",
  "Converting between Rust's owned boxes, slices, vectors and strings and their C-layout counterparts (in either direction, by reference, or through the mutable-access helpers) preserves contents, order and length; every element is dropped exactly once and every block freed once with the layout it was allocated with. This includes empty and zero-capacity values and a mutation helper whose closure panics.",
  ["histories", "inputs"], "all histories of conversions, mutations, clones and drops over element types with destructors, lengths from zero up",
  "tests convert a handful of fixed values and never observe frees, drops or a panic inside a helper",
  ["src/boxed.rs", "src/slice.rs", "src/vec.rs", "src/string/_mod.rs", "src/string/slice.rs"])
p("C05", "C strings are accepted iff well formed, and round-trip",
  "Building a C string from Rust text succeeds exactly when the text has no interior nul byte, appends the terminator only when it is missing, and a rejected input is reported as an error that gives the original back where the API says so. Whatever is built reads back as the same text and the same bytes, owned ones are freed exactly once, and two of them are equal exactly when their texts are.",
  ["inputs", "histories"], "all strings over representative bytes (nul anywhere or nowhere, multi-byte text, the empty string), all construction routes",
  "tests use a few literals; nul placement is a quantified input",
  ["src/char_p.rs", "src/proc_macro/c_str.rs", "src/c_char.rs"])
p("C06", "FFI closures forward calls faithfully and release their captures exactly once",
  "Calling an FFI closure (boxed, reference-counted, or borrowed) of any supported arity passes each argument to the original closure in order and returns its result unchanged. The captured environment is dropped exactly once when the last handle is released, never earlier, also when handles are cloned and dropped from several threads, and borrowed closures never drop what they refer to.",
  ["histories", "schedules"], "all arities, all kinds of closure, all histories of calls, clones, conversions and drops over several handles and threads",
  "tests call two or three closures once; they do not count drops nor try every arity",
  ["src/closure/boxed.rs", "src/closure/arc.rs", "src/closure/borrowed.rs"])
p("C07", "Virtual objects dispatch to their own value and drop it exactly once",
  "A virtual pointer made from a reference, box or reference-counted pointer (pinned or not) dispatches every method to the concrete value it was made from, with arguments and results intact. Dropping or cloning virtual pointers drops, shares or duplicates that value exactly as the pointer they were made from would: referents of plain references are never dropped, owned ones are dropped once.",
  ["histories"], "all receiver kinds and traits with by-reference, by-mutable-reference, generic and defaulted-clone shapes; all histories of calls, clones and drops over several handles",
  "tests make one object per trait and call it once; drop counts and mixtures of owners are not observed",
  ["src/dyn_traits/_mod.rs", "src/dyn_traits/dyn_drop.rs", "src/proc_macro/derives/dyn_trait/coercions.rs", "src/proc_macro/derives/dyn_trait/_mod.rs", "src/proc_macro/derives/dyn_trait/vtable_entry.rs"])
p("C08", "Futures crossing the FFI complete, wake and cancel as they would in Rust",
  "A future wrapped for FFI reports pending and ready as the wrapped future does, hands the caller's waker through so that each wake-up reaches the task, and yields its output once. Tasks spawned, spawned-blocking or blocked-on through the executor interface deliver exactly their own output, every spawned future is run or dropped exactly once, a panic is re-raised at the join, and a cancelled task reports cancellation instead of a value.",
  ["schedules", "histories"], "all interleavings of polls, wake-ups, waker clones/drops, completion, abandonment and cancellation, for several tasks",
  "tests run one happy-path future on a real runtime; schedules are whatever the runtime picked",
  ["src/dyn_traits/futures/_mod.rs", "src/dyn_traits/futures/executor.rs"])
p("C09", "Validity checks accept exactly the valid bit patterns",
  "Interpreting raw C data as a Rust value is accepted exactly when it is valid for the type: booleans are 0 or 1, enums one of their declared discriminants for every declared integer type, non-optional pointers and functions non-null and pointers aligned, and structs, tuples, arrays, optionals and transparent wrappers exactly when every component is. In builds with debug assertions an invalid value is detected by the unchecked constructor too.",
  ["inputs"], "all bit patterns of the small types, all boundary patterns of the larger ones, at every position of a compound type",
  "tests check a few valid values; rejection is a quantified input and mostly untested",
  ["src/layout/_mod.rs", "src/layout/impls.rs", "src/layout/macros.rs", "src/layout/niche.rs", "src/proc_macro/derives/repr_c/enum_.rs", "src/proc_macro/derives/repr_c/struct_.rs"])
p("C10", "A type and its C layout agree in size, alignment, field positions and bits",
  "For every type with a C layout, the layout has the same size, alignment and field offsets as the type itself, converting a value to its C form and back is the identity, and generated struct and enum layouts keep the declared field order and discriminants. Zero-sized markers do not disturb the layout.",
  ["inputs", "programs"], "all supported type shapes: integers, pointers, arrays, tuples, functions, derived structs (generic, nested, transparent), enums of each integer type, optionals and containers",
  "tests round-trip a few chosen types; nothing compares offsets",
  ["src/layout/_mod.rs", "src/layout/impls.rs", "src/layout/macros.rs", "src/tuple.rs", "src/proc_macro/derives/repr_c/struct_.rs", "src/proc_macro/derives/c_type/struct_.rs"])
p("C11", "Generated C headers are self-contained and describe the compiled ABI",
  "A generated C header declares every exported function, constant and type exactly once and before its use, whatever the order and shape of the exports, is identical from run to run, and compiles on its own. The sizes, alignments, field offsets, enumerator values, constants and function signatures it declares are those of the compiled library.",
  ["programs", "configurations"], "all shapes of export sets (shared, nested, recursive-by-pointer, generic and renamed types, functions taking callbacks, constants) and naming and ordering options",
  "the existing test compares with one committed header for one crate",
  ["src/headers/_mod.rs", "src/headers/definer.rs", "src/headers/languages/mod.rs", "src/headers/languages/c.rs", "src/layout/impls.rs"])
p("C12", "Exported functions behave as their Rust bodies and never unwind into C",
  "An exported function is reachable under its exported name, passes every argument to its body in position and returns the result unchanged. A panic in the body, in an async body's executor, or while converting arguments never unwinds into the foreign caller but aborts the process; in builds with debug assertions an argument that is not valid for its type is caught before the body runs.",
  ["inputs", "programs"], "all argument positions and supported argument and return types; valid and invalid arguments; bodies that return, panic early, or panic late",
  "tests call exported functions with valid values only; an abort ends a test process",
  ["src/proc_macro/ffi_export/fn_/mod.rs", "src/proc_macro/ffi_export/fn_/async_fn.rs", "src/proc_macro/ffi_export/fn_/args.rs", "src/layout/_mod.rs"])
p("C13", "The C-layout tagged option is equivalent to Option",
  "Every operation on the tagged option gives what the same operation on the standard option gives, conversions in both directions are inverse, and the payload is moved, replaced or dropped exactly once. Its C form distinguishes the two cases by its tag alone, for every payload bit pattern.",
  ["histories", "inputs"], "all histories of conversions, queries and mutations over payloads with destructors",
  "there is a single test of one conversion",
  ["src/option.rs"])
p("C14", "Header generation reports every failure and never half-succeeds silently",
  "If writing the header fails at any point, generation returns that error; it never reports success for output that was not completely accepted by the writer, and partial or interrupted writes do not corrupt the text. Defining the same name twice through a definer is either answered as already defined or reported as an error, never emitted twice.",
  ["crash_points", "fault_sequences"], "a failure, short write or interruption at every write of the output, for every language and option set",
  "tests write to files that never fail",
  ["src/headers/_mod.rs", "src/headers/definer.rs", "src/headers/languages/mod.rs"])
p("C15", "FFI views compare, hash, format and serialize like what they show",
  "Byte strings, FFI slices, vectors and strings compare, order, hash and format exactly like the slice or text they show, whatever their representation. A byte string serialized and deserialized in any supported format shape yields an equal one, and malformed input is reported as an error.",
  ["inputs"], "all pairs of contents including prefixes and empties, all representations, all serde byte shapes (borrowed, transient, owned, sequence with right, wrong or missing length hints)",
  "the serde test covers one eleven-byte value and ordering is untested",
  ["src/bytes.rs", "src/slice.rs", "src/vec.rs", "src/string/_mod.rs", "src/string/slice.rs", "src/char_p.rs"])
p("C16", "FFI handles are Send, Sync and lifetime-bound exactly where sound",
  "Safe code cannot send to, or share with, another thread an FFI handle (container, closure, virtual object, byte string) whose Rust counterpart could not be, and can where the counterpart can. Nor can safe code keep a borrowed handle beyond what it borrows from.",
  ["programs"], "all handle types instantiated with Send/Sync combinations of payloads; programs using a borrowed handle after its referent is gone",
  "the test suite only contains programs that compile",
  ["src/boxed.rs", "src/slice.rs", "src/vec.rs", "src/bytes.rs", "src/closure/boxed.rs", "src/closure/arc.rs", "src/closure/borrowed.rs", "src/dyn_traits/_mod.rs", "src/ptr.rs", "src/utils/markers.rs"])
p("C17", "C# and Python bindings describe the same ABI as the C header",
  "For the same exports, the C# and Python outputs declare the same functions with the same parameters, the same struct fields in the same order with types of the same size, and the same enumerator values and underlying types as the compiled library. Each name is declared once and before use where the language demands it.",
  ["programs", "configurations"], "all export-set shapes of the C header property, in the other output languages",
  "the existing test compares with one committed file",
  ["src/headers/languages/csharp.rs", "src/headers/languages/python.rs", "src/headers/languages/mod.rs"])
p("C18", "Programs that cannot be given a sound C ABI are rejected at compile time",
  "Deriving a C layout or exporting a function is accepted for supported shapes and refused for the others: types without a fixed representation, enums with fields, zero-sized or by-value opaque arguments, fields or parameters without a C layout, and generic exports.",
  ["programs"], "the matrix of item kinds, representation attributes, field and parameter types",
  "tests only contain programs that compile",
  ["src/proc_macro/derives/repr_c/_mod.rs", "src/proc_macro/derives/repr_c/enum_.rs", "src/proc_macro/derives/repr_c/struct_.rs", "src/proc_macro/ffi_export/fn_/mod.rs", "src/layout/_mod.rs"])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
