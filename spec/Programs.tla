------------------------------ MODULE Programs ------------------------------
\* Which programs have a sound C ABI: what may be passed, returned, stored, exported, and
\* which items a C layout may be derived for. Everything else is to be refused by the compiler.
EXTENDS Integers, Sequences, FiniteSets, TLC

------------------------------------------------------------------ \* types
\* Grades: "none" (no C layout), "opaque" (only behind a pointer), "concrete".
Concrete0 == {"u8", "i64", "usize", "f32", "bool", "c_char", "struct", "enum", "newtype", "callback",
              "char_p_ref", "char_p_box", "str_ref", "str_box", "string", "bytes", "virtual"}
Zero0 == {"unit", "phantom", "marker"}
Opaque0 == {"opaque", "opaque_of", "opaque_enum", "rust_string", "rust_vec", "rust_box", "rust_str_ref", "rust_slice_ref", "rust_arc"}
None0 == {"u128", "i128", "char", "str", "slice", "plain", "plain_of", "rust_tuple", "rust_fn", "system_fn", "nonzero", "dyn", "cell", "array0", "array33"}
Leaves == Concrete0 \cup Zero0 \cup Opaque0 \cup None0
Niche0 == {"callback", "char_p_ref", "char_p_box", "str_ref", "str_box", "string", "bytes", "virtual"}

Fat == {"vec", "slice_ref", "slice_mut", "slice_box"}
Pointers == {"ref", "mut", "nonnull", "owned", "out", "box"} \cup Fat
Raw == {"const_ptr", "mut_ptr"}
Calls == {"fn", "unsafe_fn", "box_fn", "arc_fn", "ref_fn"}    \* <<c, returned, argument>>
Inline == {"array", "tagged", "tuple1", "generic"}            \* holds its operand
Ctors == Pointers \cup Raw \cup Inline \cup {"option", "transparent"}

RECURSIVE Shade(_, _), Zero(_), Niche(_), ZeroCall(_)
Zero(t) == \/ t[1] \in Zero0
           \/ t[1] \in {"array", "tuple1", "generic", "transparent"} /\ Zero(t[2])
           \/ t[1] = "tuple2" /\ Zero(t[2]) /\ Zero(t[3])
Niche(t) == \/ t[1] \in Niche0 \cup Pointers \cup Calls
            \/ t[1] = "transparent" /\ Niche(t[2])
\* `lax`: callbacks may be given zero-sized arguments.
Shade(t, lax) ==
  CASE t[1] \in Concrete0 \cup Zero0 -> "concrete"
    [] t[1] \in Opaque0 -> "opaque"
    [] t[1] \in None0 -> "none"
    [] t = <<"box", <<"slice">>>> -> "concrete"      \* another name of the fat one
    [] t \in {<<"ref", <<"slice">>>>, <<"mut", <<"slice">>>>, <<"ref", <<"str">>>>} -> "opaque"             \* Rust's own fat ones
    [] t[1] \in Pointers \cup Raw -> IF Shade(t[2], lax) # "none" THEN "concrete" ELSE "none"
    [] t[1] \in Inline -> IF Shade(t[2], lax) = "concrete" THEN "concrete" ELSE "none"
    [] t[1] = "tuple2" -> IF Shade(t[2], lax) = "concrete" /\ Shade(t[3], lax) = "concrete" THEN "concrete" ELSE "none"
    [] t[1] = "transparent" -> Shade(t[2], lax)
    [] t[1] = "option" -> IF Niche(t[2]) THEN Shade(t[2], lax) ELSE "none"
    [] t[1] \in Calls -> IF Shade(t[2], lax) = "concrete" /\ Shade(t[3], lax) = "concrete" /\ (lax \/ ~Zero(t[3])) THEN "concrete" ELSE "none"
    [] OTHER -> Assert(FALSE, t)
Grade(t) == Shade(t, FALSE)
ByValue(t) == Grade(t) = "concrete"
Passable(t) == ByValue(t) /\ ~Zero(t)

\* The innermost callback with a zero-sized argument, if any.
ZeroCall(t) ==
  IF t[1] \in Calls
  THEN IF ZeroCall(t[2]) # <<>> THEN ZeroCall(t[2]) ELSE IF ZeroCall(t[3]) # <<>> THEN ZeroCall(t[3]) ELSE IF Zero(t[3]) THEN <<t[1], t[3]>> ELSE <<>>
  ELSE IF t[1] = "tuple2" THEN (IF ZeroCall(t[2]) # <<>> THEN ZeroCall(t[2]) ELSE ZeroCall(t[3]))
  ELSE IF Len(t) = 1 THEN <<>> ELSE ZeroCall(t[2])

L0 == {<<x>> : x \in Leaves}
RECURSIVE Nested(_)
Nested(n) == IF n = 0 THEN L0 ELSE {<<c, t>> : c \in Ctors, t \in Nested(n - 1)}
Callable == {<<"u8">>, <<"unit">>, <<"phantom">>, <<"struct">>, <<"opaque">>, <<"rust_vec">>, <<"plain">>, <<"bytes">>,
             <<"ref", <<"opaque">>>>, <<"option", <<"box", <<"opaque">>>>>>, <<"array", <<"opaque">>>>, <<"array", <<"u8">>>>, <<"option", <<"u8">>>>,
             <<"tagged", <<"struct">>>>, <<"vec", <<"plain">>>>, <<"generic", <<"opaque">>>>, <<"transparent", <<"opaque">>>>,
             <<"fn", <<"unit">>, <<"u8">>>>, <<"fn", <<"unit">>, <<"opaque">>>>}
CallTypes == {<<c, r, a>> : c \in Calls, r \in Callable, a \in Callable}
Held == {t \in CallTypes : Passable(t[3]) \/ ~ByValue(t[3])}      \* not the ones only at fault for a zero-sized argument
HeldCalls == {<<c, t>> : c \in Ctors, t \in {u \in Held : u[1] \in {"fn", "box_fn"} /\ (u[2] = <<"u8">> \/ u[3] = <<"u8">>)}}
Pairs == {<<"tuple2", s, t>> : s \in {<<"u8">>, <<"struct">>, <<"opaque">>, <<"unit">>, <<"plain">>}, t \in L0}

\* Positions: of an exported function, of a structure, of a method of a virtual object.
Positions == {"param", "second_param", "returned", "field", "lifetime_field", "generic_field", "pointee", "mut_pointee", "method_param", "method_returned",
              "newtype_param", "newtype_returned", "async_param", "async_returned"}
Accepts(p, t) ==
  CASE p \in {"param", "second_param", "method_param", "newtype_param", "async_param"} -> Passable(t)
    [] p \in {"returned", "field", "lifetime_field", "generic_field", "method_returned", "newtype_returned", "async_returned"} -> ByValue(t)
    [] OTHER -> Grade(t) # "none"

\* What is only to be refused because of a zero-sized argument of a callback.
Relaxed(p, t) ==
  CASE p \in {"param", "second_param", "async_param"} -> Shade(t, TRUE) = "concrete" /\ ~Zero(t)
    [] p \in {"pointee", "mut_pointee"} -> Shade(t, TRUE) # "none"
    [] OTHER -> Shade(t, TRUE) = "concrete"
Why(p, t) == IF ZeroCall(t) # <<>> THEN "unseen:zero_" \o ZeroCall(t)[1] ELSE "unseen:zero_" \o p

------------------------------------------------------------------ \* items: structures
\* Each repr attribute holds one hint or several: what counts is the set of these.
Ints == {"u8", "i8", "u16", "i32", "u64"}
Hints == {"C", "transparent", "opaque", "packed", "align", "u8", "Rust"}
HintSeqs == {<<>>} \cup {<<h>> : h \in Hints \cup {"u128", "isize", "simd"}} \cup (Hints \X Hints)
SetOf(s) == {s[i] : i \in DOMAIN s}

\* Fields: kinds with <<size, alignment>>; hidden ones are cfg-ed out; markers are known as such to the macro.
Fields0 == {"u8", "u32", "ref", "marker", "unit", "zero", "opaque", "plain", "hidden", "shown"}
FSize == [u8 |-> 1, u32 |-> 4, ref |-> 8, marker |-> 0, unit |-> 0, zero |-> 0, opaque |-> 24, plain |-> 1, hidden |-> 4, shown |-> 4, param |-> 1]
FAlign == [u8 |-> 1, u32 |-> 4, ref |-> 8, marker |-> 1, unit |-> 1, zero |-> 1, opaque |-> 8, plain |-> 1, hidden |-> 4, shown |-> 4, param |-> 1]
FGrade(f) == CASE f = "opaque" -> "opaque" [] f = "plain" -> "none" [] OTHER -> "concrete"
Up(n, a) == ((n + a - 1) \div a) * a
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Place(_, _)
Place(fs, at) == IF fs = <<>> THEN at ELSE Place(Tail(fs), Up(at, FAlign[Head(fs)]) + FSize[Head(fs)])
Align(fs) == MaxOf({1} \cup {FAlign[fs[i]] : i \in DOMAIN fs})
Size(fs) == Up(Place(fs, 0), Align(fs))
Visible(fs) == SelectSeq(fs, LAMBDA f : f # "hidden")
Real(fs) == SelectSeq(fs, LAMBDA f : FSize[f] # 0 /\ f # "hidden")

FieldSeqs == {<<>>} \cup {<<f>> : f \in Fields0} \cup (Fields0 \X Fields0)
Triples == {"u8", "u32", "marker", "zero", "opaque", "hidden"} \X {"u8", "ref", "unit", "plain"} \X {"u8", "u32", "marker", "zero", "hidden"}
Structs == {[kind |-> k, hints |-> h, split |-> s, fields |-> fs] :
              k \in {"named", "tuple"}, h \in HintSeqs, s \in BOOLEAN, fs \in FieldSeqs \cup Triples}
           \cup {[kind |-> "unit", hints |-> h, split |-> FALSE, fields |-> <<>>] : h \in HintSeqs}
\* Generic over the type of one of its fields, here used with u8.
GenericFields == {<<"param">>} \cup ({"param"} \X Fields0) \cup (Fields0 \X {"param"})
Generics == {[kind |-> k, hints |-> <<h>>, split |-> FALSE, fields |-> fs] : k \in {"named", "tuple"}, h \in {"C", "transparent", "opaque"}, fs \in GenericFields}
SaneStruct(x) == /\ x.split => Len(x.hints) = 2
                 /\ (SetOf(x.hints) \notin {{"C"}, {"transparent"}, {"opaque"}} => x.fields \in {<<>>, <<"u8">>, <<"ref">>, <<"marker", "u8">>, <<"u8", "u32">>})
                 /\ (Len(x.fields) = 3 => Len(x.hints) = 1)

\* What the layout of a transparent structure is said to be that of.
FirstReal(fs) == LET k == {i \in DOMAIN fs : fs[i] \notin {"marker", "unit"}} IN
                 IF k = {} THEN fs[1] ELSE fs[CHOOSE i \in k : \A j \in k : i <= j]
StructVerdict(x) ==
  LET hs == SetOf(x.hints) fs == x.fields vs == Visible(fs) IN
  CASE hs = {"opaque"} -> IF Len(x.hints) = 1 THEN "accepted" ELSE "either"
    [] hs = {"C"} ->
         IF fs = <<>> \/ \E i \in DOMAIN fs : FGrade(fs[i]) # "concrete" THEN "refused"
         ELSE IF Size(fs) # Size(vs) \/ Align(fs) # Align(vs) THEN "refused"
         ELSE IF fs # vs THEN "either"                     \* nothing but padding
         ELSE "accepted"
    [] hs = {"transparent"} ->
         IF fs = <<>> \/ Len(Real(fs)) > 1 THEN "refused"
         ELSE IF \E i \in DOMAIN fs : fs[i] = "plain" THEN "refused"
         ELSE IF FGrade(FirstReal(fs)) = "concrete" /\ (FSize[FirstReal(fs)] # Size(Real(fs)) \/ FAlign[FirstReal(fs)] # Align(Real(fs)))
              THEN "refused"
         ELSE IF FirstReal(fs) = "opaque" THEN "either"    \* may be used behind pointers
         ELSE IF fs # vs THEN "either"
         ELSE "accepted"
    [] OTHER -> "refused"

GenericVerdict(x) ==
  LET v == StructVerdict(x) IN
  IF v = "refused" /\ x.hints = <<"C">> /\ "hidden" \in SetOf(x.fields) /\ \A i \in DOMAIN x.fields : FGrade(x.fields[i]) = "concrete" THEN "unseen:hidden"
  ELSE IF v = "refused" /\ x.hints = <<"transparent">> /\ Len(Real(x.fields)) = 1 /\ x.fields[1] \in {"zero", "hidden"} /\ "plain" \notin SetOf(x.fields)
  THEN "unseen:first" ELSE v

------------------------------------------------------------------ \* items: enumerations
Variants == {"unit", "zero", "neg", "big", "wide", "tuple", "named", "brace"}
EnumHints == {<<>>} \cup {<<h>> : h \in {"C", "transparent", "opaque", "packed", "Rust", "u128", "i128", "isize", "usize", "u16", "i64"} \cup Ints}
             \cup {<<"C", i>> : i \in Ints} \cup {<<i, "C">> : i \in Ints} \cup {<<"u8", "i32">>, <<"C", "C">>, <<"u8", "u8">>, <<"C", "packed">>, <<"opaque", "u8">>, <<"C", "opaque">>}
Values == [unit |-> 0, zero |-> 0, neg |-> -1, big |-> 300, wide |-> 70000]
Low(i) == CASE i \in {"u8", "u16", "u32", "u64"} -> 0 [] i = "i8" -> -128 [] OTHER -> -1000000
High(i) == CASE i = "u8" -> 255 [] i = "i8" -> 127 [] i = "u16" -> 65535 [] OTHER -> 1000000
\* "wide" stands for what no c_int holds when the hint is C alone; else for 70000.
Fits(v, i) == CASE v \in {"tuple", "named", "brace", "unit"} -> TRUE
               [] i = "c_int" /\ v = "wide" -> FALSE
               [] OTHER -> Values[v] >= Low(i) /\ Values[v] <= High(i)
Enums == {[hints |-> h, split |-> s, variants |-> vs, generics |-> g] :
            h \in EnumHints, s \in BOOLEAN, vs \in ({<<>>} \cup {<<v>> : v \in Variants} \cup {<<"unit", v>> : v \in Variants}),
            g \in {"", "type", "lifetime", "const", "where"}}
SaneEnum(x) == /\ x.split => Len(x.hints) = 2
               /\ x.generics # "" => x.variants \in {<<"unit">>, <<"unit", "zero">>} /\ x.hints \in {<<"u8">>, <<"opaque">>, <<"C">>}
               /\ (\E i \in DOMAIN x.variants : x.variants[i] = "zero") => x.variants # <<"unit", "zero">> \/ x.generics # ""
EnumVerdict(x) ==
  LET hs == SetOf(x.hints) ints == hs \ {"C"} vs == x.variants
      int == IF ints = {} THEN "c_int" ELSE CHOOSE i \in ints : TRUE
      payload == \E i \in DOMAIN vs : vs[i] \in {"tuple", "named"}
      brace == \E i \in DOMAIN vs : vs[i] = "brace"
      same == vs = <<"unit", "zero">>                     \* the same discriminant twice
  IN IF same THEN "refused"
     ELSE IF hs = {"opaque"} /\ Len(x.hints) = 1
     THEN IF x.generics \in {"type", "lifetime"} THEN "refused"     \* unused parameter
          ELSE "accepted"
     ELSE IF vs = <<>> \/ payload \/ x.generics # "" \/ hs = {} \/ ~(ints \subseteq {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"}) \/ Cardinality(ints) > 1 THEN "refused"
     ELSE IF \E i \in DOMAIN vs : ~Fits(vs[i], int) THEN (IF int = "c_int" \/ \E i \in DOMAIN vs : vs[i] = "neg" THEN "refused" ELSE "either")   \* up to the lints
     ELSE IF brace \/ (Len(x.hints) = 2 /\ Cardinality(hs) = 1) THEN "either"
     ELSE "accepted"

------------------------------------------------------------------ \* items: generic structures
\* A structure generic over T, and its use with each type.
Shapes == {"C", "C_bounded", "transparent", "transparent_marker", "opaque", "lifetime", "const"}
NoSize == {<<"str">>, <<"slice">>, <<"dyn">>}
ShapeVerdict(s, p, t) ==
  CASE s \in {"C", "C_bounded", "const"} -> IF ByValue(t) THEN "accepted" ELSE "refused"     \* with a u8 beside, hence never empty
    [] s \in {"transparent", "transparent_marker"} -> IF Accepts(p, <<"transparent", t>>) THEN "accepted" ELSE "refused"
    [] s = "opaque" -> IF p = "pointee" /\ t \notin NoSize THEN "accepted" ELSE "refused"
    [] OTHER -> IF Accepts(p, t) THEN "accepted" ELSE "refused"

------------------------------------------------------------------ \* items: exported functions
Functions == [abi : {"", "C", "extern", "system", "Rust", "C-unwind", "cdecl"}, unsafe : BOOLEAN, const : BOOLEAN, async : BOOLEAN,
              generics : {"", "lifetime", "bounded_lifetime", "type", "used_type", "const", "where", "impl_param", "impl_ret"},
              receiver : {"", "ref", "mut", "value"}, variadic : BOOLEAN,
              attr : {"", "rename", "rename_bad", "rename_empty", "rename_ident", "rename_twice", "unknown", "executor", "untyped"}]
Neutral == [abi |-> "", unsafe |-> FALSE, const |-> FALSE, async |-> FALSE, generics |-> "", receiver |-> "", variadic |-> FALSE, attr |-> ""]
Off(f) == {k \in DOMAIN Neutral : f[k] # Neutral[k]}
FunctionVerdict(f) ==
  IF /\ f.abi \in {"", "C", "extern"}
     /\ ~f.const /\ ~f.async /\ ~f.variadic /\ f.receiver = ""
     /\ f.generics \in {"", "lifetime", "bounded_lifetime", "where"}
     /\ f.attr \in {"", "rename"}
  THEN IF f.generics = "where" THEN "either" ELSE "accepted" ELSE "refused"
Patterns == {"ident", "mut", "ref", "ref_mut", "wild", "tuple_struct", "array", "raw", "at"}

\* Asynchronous functions: with the executor, and awaiting at the end, and there only.
AsyncFns == [executor : BOOLEAN, async : BOOLEAN, await : {"last", "none", "first", "twice", "macro_args"}, ret : BOOLEAN, unsafe : BOOLEAN, abi : {"", "C", "system"}]
AsyncVerdict(f) ==
  IF ~f.async THEN (IF f.executor \/ f.await # "none" THEN "refused" ELSE IF f.abi = "system" THEN "refused" ELSE "accepted")
  ELSE IF ~f.executor \/ f.await \in {"none", "first"} THEN "refused"
  ELSE IF f.await # "last" \/ f.unsafe \/ f.abi # "" THEN "either"
  ELSE "accepted"

------------------------------------------------------------------ \* items: virtual methods
Receivers == {"ref", "mut", "pin_ref", "pin_mut", "typed_ref", "typed_mut", "value", "none", "box", "rc", "arc", "pin_box", "pin_arc", "twice_pinned"}
Methods == [receiver : Receivers, generics : {"", "lifetime", "type", "const"}, async : BOOLEAN, unsafe : BOOLEAN, body : BOOLEAN]
Refused == {"value", "none", "box", "rc", "arc", "pin_box", "pin_arc", "twice_pinned"}
GoodReceiver(r) == r \in {"ref", "mut", "pin_mut"}
MethodVerdict(m) ==
  IF m.receiver \in Refused \/ m.generics \in {"type", "const"} \/ m.async THEN "refused"
  ELSE IF GoodReceiver(m.receiver) /\ m.generics = "" /\ ~m.unsafe THEN "accepted"
  ELSE "either"
\* Two methods: a pinned object is never also an exclusively borrowed, hence movable, one.
PairVerdict(a, b) ==
  IF {a, b} \cap Refused # {} THEN "refused"
  ELSE IF {a, b} \subseteq {"mut", "ref"} \/ {a, b} \subseteq {"pin_mut", "ref"} THEN "accepted"
  ELSE IF "mut" \in {a, b} /\ "pin_mut" \in {a, b} THEN "refused"
  ELSE "either"
TraitItems == {"type", "const", "generic", "lifetime", "supertrait_clone", "macro"}
TraitVerdict(i) == IF i \in {"type", "const", "generic", "supertrait_clone"} THEN "refused" ELSE "either"

\* A virtual trait, used: a Box of an implementor becomes a virtual pointer, is called, and cloned if that was asked for.
Virtuals == [generics : SUBSET {"lifetime", "bounded", "const", "where"}, clone : BOOLEAN, super : {"", "send", "sync", "both", "static"},
             form : {"plain", "send", "both"}, receiver : {"ref", "mut", "pin"}, unsafe : BOOLEAN, public : BOOLEAN]
SaneVirtual(v) == ("bounded" \in v.generics => "lifetime" \in v.generics)
VirtualVerdict(v) ==
  IF v.unsafe \/ (v.form = "send" /\ v.receiver = "ref") \/ "where" \in v.generics \/ v.super = "static" THEN "either" ELSE "accepted"

------------------------------------------------------------------ \* items: named callbacks
Callbacks == [abi : {"", "C", "extern", "system", "Rust", "C-unwind"}, unsafe : BOOLEAN, public : BOOLEAN, public_field : BOOLEAN, variadic : BOOLEAN, marker : BOOLEAN,
              named : BOOLEAN, repr : {"", "transparent", "C", "opaque"}, lifetime : {"", "param", "bound"}]
CallbackVerdict(c) ==
  IF c.repr = "" THEN "refused"
  ELSE IF c.repr = "opaque" THEN "either"
  ELSE IF c.abi \notin {"C", "extern"} \/ c.variadic THEN "refused"
  ELSE IF c.marker /\ c.lifetime = "bound" THEN "either"       \* not a named callback but a structure with a higher-ranked field
  ELSE IF c.repr = "transparent" /\ ~c.marker THEN (IF ~c.public \/ ~c.public_field \/ c.lifetime # "" THEN "either" ELSE "accepted")
  ELSE IF c.lifetime # "" THEN "either" ELSE "accepted"

------------------------------------------------------------------ \* items: the others
Exported == {"static", "static_mut", "union", "trait", "impl", "mod", "alias", "use", "extern_block", "macro", "struct_without_layout", "enum_without_layout", "generic_struct",
             "struct", "enum", "opaque"}
Derived == {"union", "trait", "impl", "mod", "alias", "fn", "static", "const", "dyn_struct", "dyn_enum", "dyn_fn", "dyn_twice", "other", "dyn_other", "renamed", "renamed_twice", "renamed_to_number"}
ItemVerdict(e, i) ==
  IF e = "export" THEN (IF i \in {"struct", "enum", "opaque"} THEN "accepted" ELSE "refused")
  ELSE IF i = "renamed" THEN "accepted" ELSE IF i = "dyn_twice" THEN "either" ELSE "refused"

------------------------------------------------------------------ \* items: constants
Constants == {"u8", "i64", "usize", "f32", "f64", "bool", "struct", "enum", "newtype", "unit", "phantom", "rust_string", "rust_vec", "rust_str_ref", "rust_slice_ref", "ref", "array",
              "option", "fn", "option_fn", "plain", "u128", "char", "option_u8", "rust_tuple", "const_ptr", "char_p_ref", "option_opaque"}
ConstantVerdict(c) ==
  CASE c \in {"u8", "i64", "usize", "f32", "f64", "bool"} -> "accepted"
    [] c \in {"plain", "u128", "char", "option_u8", "rust_tuple", "option_opaque", "newtype"} -> "refused"
    [] c \in {"struct", "enum", "unit", "phantom", "array"} -> "unseen:compound"
    [] c \in {"ref", "option", "fn", "option_fn", "const_ptr"} -> "unseen:pointer"
    [] c \in {"rust_string", "rust_vec", "rust_str_ref", "rust_slice_ref"} -> "unseen:opaque"
    [] OTHER -> "either"                          \* strings of C: have literals

------------------------------------------------------------------ \* laws of the above
Laws ==
  /\ \A t \in Nested(1) : Grade(t) = "concrete" /\ t[1] \notin Pointers \cup Raw \cup {"option"} => Grade(t[2]) = "concrete"
  /\ \A t \in Nested(1) : \A p \in Positions : Accepts(p, t) => Grade(t) # "none"
  /\ \A t \in L0 : Accepts("param", t) => Accepts("returned", t) /\ Accepts("field", t)
  /\ \A t \in L0 : Accepts("returned", t) => Accepts("pointee", t)
=============================================================================
