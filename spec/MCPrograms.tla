----------------------------- MODULE MCPrograms -----------------------------
EXTENDS Programs, Json
CONSTANTS Depth, Slack
VARIABLES q
Out(x) == PrintT(ToJson(x))
Deep == UNION {Nested(n) : n \in 0..Depth} \cup CallTypes \cup HeldCalls \cup Pairs
Few == {f \in Functions : Cardinality(Off(f)) <= IF f.generics \in {"const", "type", "used_type"} THEN 1 ELSE Slack}
Plain == [abi |-> "C", unsafe |-> FALSE, public |-> TRUE, public_field |-> TRUE, variadic |-> FALSE, marker |-> FALSE, named |-> FALSE, repr |-> "transparent", lifetime |-> ""]
Odd(v) == Cardinality(v.generics) + (IF v.super # "" THEN 1 ELSE 0) + (IF v.form # "plain" THEN 1 ELSE 0)
          + (IF v.receiver # "ref" THEN 1 ELSE 0) + (IF v.unsafe THEN 1 ELSE 0) + (IF v.public THEN 0 ELSE 1)
Kinds == {<<"type", p>> : p \in Positions} \cup {<<x>> : x \in {"struct", "enum", "shape", "function", "async", "method", "pair", "trait", "constant", "generic", "callback", "item", "virtual"}}
Shallow == UNION {Nested(n) : n \in 0..1} \cup CallTypes \cup Pairs
Questions(k) ==
  CASE k[1] = "type" -> {<<"type", k[2], t>> : t \in IF k[2] \in {"param", "field", "returned", "pointee"} THEN Deep ELSE Shallow}
    [] k[1] = "struct" -> {<<"struct", x>> : x \in {y \in Structs : SaneStruct(y)}}
    [] k[1] = "enum" -> {<<"enum", x>> : x \in {y \in Enums : SaneEnum(y)}}
    [] k[1] = "shape" -> {<<"shape", s, p, t>> : s \in Shapes, p \in {"param", "returned", "field", "pointee"}, t \in L0}
    [] k[1] = "function" -> {<<"function", f>> : f \in Few}
    [] k[1] = "async" -> {<<"async", f>> : f \in AsyncFns}
    [] k[1] = "method" -> {<<"method", f>> : f \in Methods}
    [] k[1] = "pair" -> {<<"pair", a, b>> : a \in Receivers, b \in Receivers}
    [] k[1] = "constant" -> {<<"constant", c>> : c \in Constants}
    [] k[1] = "generic" -> {<<"generic", x>> : x \in Generics}
    [] k[1] = "callback" -> {<<"callback", c>> : c \in {d \in Callbacks : Cardinality({w \in DOMAIN Plain : d[w] # Plain[w]}) <= Slack}}
    [] k[1] = "item" -> {<<"item", "export", i>> : i \in Exported} \cup {<<"item", "derive", i>> : i \in Derived}
    [] k[1] = "virtual" -> {<<"virtual", v>> : v \in {w \in Virtuals : SaneVirtual(w) /\ Odd(w) <= Slack}}
    [] OTHER -> {<<"trait", i>> : i \in TraitItems}
Yes(b) == IF b THEN "accepted" ELSE "refused"
Answer(x) ==
  CASE x[1] = "type" -> IF ~Accepts(x[2], x[3]) /\ Relaxed(x[2], x[3]) THEN Why(x[2], x[3]) ELSE Yes(Accepts(x[2], x[3]))
    [] x[1] = "struct" -> StructVerdict(x[2])
    [] x[1] = "enum" -> EnumVerdict(x[2])
    [] x[1] = "shape" -> ShapeVerdict(x[2], x[3], x[4])
    [] x[1] = "function" -> FunctionVerdict(x[2])
    [] x[1] = "async" -> AsyncVerdict(x[2])
    [] x[1] = "method" -> MethodVerdict(x[2])
    [] x[1] = "pair" -> PairVerdict(x[2], x[3])
    [] x[1] = "constant" -> ConstantVerdict(x[2])
    [] x[1] = "generic" -> GenericVerdict(x[2])
    [] x[1] = "callback" -> CallbackVerdict(x[2])
    [] x[1] = "item" -> ItemVerdict(x[2], x[3])
    [] x[1] = "virtual" -> VirtualVerdict(x[2])
    [] OTHER -> TraitVerdict(x[2])
Init == q = <<>>
Next == \/ q = <<>> /\ \E k \in Kinds : q' = <<"kind", k>>
        \/ q # <<>> /\ q[1] = "kind" /\ \E x \in Questions(q[2]) : q' = x
Spec == Init /\ [][Next]_q
Tell == q = <<>> \/ q[1] = "kind" \/ Out(<<q, Answer(q)>>)
ASSUME Laws
=============================================================================
