----------------------------- MODULE MCThreads -----------------------------
EXTENDS Threads, Json
CONSTANTS Depth
VARIABLES q
Out(x) == PrintT(ToJson(x))
AllTypes == UNION {Types(n) : n \in 1..Depth} \cup Types(0) \cup Pairs \cup Closures \cup Plain \cup Wrapped
Questions ==
  {<<"thread", t>> : t \in AllTypes}
  \cup {<<"lifetime", cs>> : cs \in Nests(1) \cup Nests(2)}
  \cup {<<"hide", h>> : h \in Hidings}
  \cup {<<"door", <<d, k, l>>>> : d \in DOMAIN Doors, k \in Leaves, l \in BOOLEAN}
Answer(x) ==
  CASE x[1] = "thread" -> <<Sends(x[2]), Syncs(x[2])>>
    [] x[1] = "lifetime" -> <<MayShorten(x[2]), MayLengthen(x[2])>>
    [] x[1] = "hide" -> HideVerdict(x[2])
    [] OTHER -> DoorVerdict(x[2][1], x[2][2], x[2][3])
Init == q = <<"start">>
Next == q = <<"start">> /\ \E x \in Questions : q' = x
Spec == Init /\ [][Next]_q
Tell == q = <<"start">> \/ Out(<<q[1], q[2], Answer(q)>>)
ASSUME Laws
=============================================================================
