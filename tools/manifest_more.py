c("C04", "c_containers.py", REPLAY, "model_checking",
  "Exhaustive over small models (2 slots, up to 3 elements) of the vec/slice, box and string families with "
  "drop-counting, over-aligned and zero-sized elements and panicking clones, drops and closures; "
  "checking allocator verifies every free's layout. Trusts driver projection and TLC.")
c("C05", "c_cstrings.py", REPLAY + "; literals enumerated by the specification compiled or refused by rustc", "model_checking",
  "Every text up to 2-4 characters over {NUL, 1-byte, 2-byte, invalid byte, long run} through every constructor, "
  "conversion, reader and pair comparison, debug and release; every literal up to 3 characters through c!. "
  "Trusts driver projection, TLC and rustc.")
c("C06", "c_closures.py", REPLAY, "model_checking",
  "Boxed, shared, borrowed and C-made closures of every arity 0..9, with uniform and mixed argument/return types, "
  "called, cloned and released from Rust and through the raw C fields, on several threads; exhaustive over 2-3 handles "
  "and 2 environments. Concurrent clone/drop storms are sampled, not enumerated.")
c("C07", "c_dyntraits.py", REPLAY, "model_checking",
  "12 trait shapes (Clone or not, &self/&mut/Pin receivers, default methods, callbacks by value, Send/Sync bounds) and "
  "DynDrop, three concrete types, every coercion (&, &mut, Box, Rc, Arc, pinned), called, cloned and released from Rust and "
  "through the raw C vtable; exhaustive over 2-3 pointers and 2-3 objects.")
c("C08", "c_futures.py", REPLAY + "; recorded tokio runs validated by a TLC trace specification", "model_checking",
  "Deterministic executor: every order of polls, wake-ups (by reference, by value, through the C helpers), abandonment, "
  "end-of-task signals, join polls and drops for one task with 2 suspensions or two with 1, every handle form; blocking, "
  "enter guards, block_on that completes or gives up. Tokio schedules (panics, shutdown) are sampled and judged by TLC.")
VECTORS = ("TLA+ specification of the C ABI (Abi.tla) run with TLC over generated and fixed programs of types; the bit patterns, "
           "verdicts and layouts it computes are replayed into the compiled program")
c("C09", "c_layout.py", VECTORS, "model_checking",
  "Every type family (integers, pointers, functions, containers, closures, optionals, arrays, tuples, tagged options, enums of "
  "every backing type) plus generated programs of nested, generic and transparent types: exhaustive bit patterns for types of "
  "up to two bytes, boundary patterns at every leaf (and pairs) of larger ones, debug and release.")
c("C10", "c_layout.py", VECTORS, "model_checking",
  "All structs of one to three fields over the size classes, all arities of tuples and functions, and generated programs: size, "
  "alignment and every field offset of the type and of its C layout, and byte-exact round trips of values with non-zero padding.")
GEN = ("TLA+ specification of the C ABI (Abi.tla) run with TLC over generated programs of exports; the declarations it requires "
       "(forms, layouts, members, enumerators) are checked against the headers the real generator writes for that program")
c("C11", "c_header.py", GEN + " by a C compiler and a C reader", "model_checking",
  "Every type family and ~30 (thorough ~150) generated programs of nested types, functions and constants, with docs, renames, "
  "modules and every order of exports: each header compiles alone as C99 and C++17, is stable from run to run, declares every "
  "needed type, function and constant once and before use, and static assertions pin sizes, offsets, enumerators and signatures.")
c("C17", "c_bindings.py", GEN + " by a reader of C# declarations and by cffi", "model_checking",
  "The same programs as C11: C# structs, fields, marshalling, enums, delegates, imports and constants, and the Python dialect "
  "parsed by cffi, compared with the specified foreign layout. No C# compiler is available, so C# is judged by our own reader.")
c("C12", "c_calls.py", "TLA+ model of calls across the boundary (Calls.tla) whose scripts are followed by real exported functions "
  "called from C++, and argument/result bit patterns computed by Abi.tla passed through generated exports", "model_checking",
  "All scripts over nested calls (depth 2-3), panics of five kinds, catches, the four segments of async exports and every kind of "
  "invalid argument for seven exports, plus ~350 (thorough ~2500) generated signatures with specified patterns, debug and release, "
  "each abort observed in a process of its own and unwinding detected by C++ catch. x86-64 SysV, gcc as the foreign compiler.")
c("C13", "c_options.py", REPLAY + " (the same histories on the standard Option), and bit patterns computed by Abi.tla", "model_checking",
  "Every operation on 2 (thorough 3) slots and 3 payload objects with five payload types (small, padded, NaN bits, owning, nested), "
  "closures and clones that panic, conversions to and from C with junk payloads and bad tags; plus every payload family's bit "
  "patterns. Hash equality is only required between equal tagged options.")
c("C14", "c_output.py", "TLA+ models of writing to a failing writer (HeaderOut.tla) and of definers and libraries (Headers.tla): every "
  "schedule, script and set of known names TLC generates is replayed into real generations, and what the writers saw is validated "
  "by a trace specification", "model_checking",
  "Every write and flush of the headers of one library (C, C#, Python, stable or not, nine kinds of writers and definers) meets "
  "interruptions, short writes, zero writes and failures of five kinds, schedules of up to 2 (thorough 3) faults; all scripts of "
  "6 (thorough 7) definer operations; the library with every set of up to 2 (thorough 3) names known beforehand; real files, full "
  "devices and size limits; duplicate exports.")
c("C15", "c_views.py", "TLA+ definitions of comparing, ordering, formatting and deserializing sequences (Views.tla) and a model of maps "
  "keyed by views (Maps.tla): TLC computes the answers to every question and generates histories of map operations, which the "
  "real views are asked and taken through", "model_checking",
  "All pairs of sequences of up to 3 (thorough 4) elements over 4 values of four element types (with incomparable values, and equal "
  "values that are not the same) and long ones around the inline capacity, 12 representations of byte strings against one another, "
  "all texts of 3 (thorough 5) of 8 characters with paddings, ten serde shapes with five kinds of announced lengths, map histories; "
  "debug and release. The formats at hand offline are serde_json and our own (de)serializers.")
c("C16", "c_threads.py", "TLA+ type algebra of counterparts (Threads.tla: Send, Sync, variance, what may be hidden behind a handle) and a "
  "model of loans (Loans.tla): TLC computes the verdict on every type, coercion, way in and borrowing program, which the real "
  "compiler is asked about, for the handles and for their Rust counterparts", "model_checking",
  "All nests of up to 2 (thorough 3) constructors over payloads of every Send/Sync combination; all coercions of nests of lifetimes; "
  "1280 ways to make virtual objects and 35 other entry points; for 60 ways of borrowing, all programs of up to 4 (thorough 5) steps "
  "and a selection of those with one more. Straight-line programs; soundness is judged by signatures as rustc 1.72 checks them.")
c("C18", "c_programs.py", "TLA+ algebra of types and items with a sound C ABI (Programs.tla: grades of types, structures, enumerations, exported "
  "functions, asynchronous functions, virtual methods, constants): TLC enumerates the programs and computes the verdict on each, which "
  "the real macros and compiler are asked about", "model_checking",
  "All types of up to 1 (thorough 2) constructors over 41 leaves and two-operand callbacks, in 14 positions; structs of up to 3 fields and "
  "50 combinations of repr hints; enums; generics; functions with up to 2 (thorough 3) unusual features; methods and pairs of them. "
  "Item macros are asked with one program per item kind and feature, not with arbitrary bodies. Known findings are filtered by kind.")
