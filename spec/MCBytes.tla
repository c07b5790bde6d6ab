------------------------------ MODULE MCBytes ------------------------------
(* Exhaustive exploration of Bytes within small constants, and its edges as JSON for the replay. *)
EXTENDS Bytes, Json

CONSTANTS Emit, MakeSlots

\* A window small enough to be inline is only cut further at its edges (its offsets would
\* otherwise multiply the states without adding behaviour).
Cuts(v) == IF v.len > MaxInl
           THEN {<<"inc", 0, "exc", v.len>>, <<"inc", 1, "unb", 0>>, <<"unb", 0, "inc", IF v.len = 1 THEN 0 ELSE v.len - 2>>,
                 <<"inc", v.len - MaxInl, "unb", 0>>, <<"exc", 0, "exc", MaxInl + 1>>,
                 <<"inc", v.len, "unb", 0>>, <<"exc", 2, "inc", 2>>,
                 <<"inc", v.len + 1, "unb", 0>>, <<"inc", 2, "exc", 1>>, <<"unb", 0, "inc", v.len>>,
                 <<"exc", v.len, "unb", 0>>, <<"inc", 0, "exc", v.len + 1>>,
                 <<"unb", 0, "inc", Top>>, <<"exc", Top, "unb", 0>>, <<"inc", Top, "exc", Top>>}
           ELSE IF v.len >= MaxInl - 1
           THEN {<<"unb", 0, "unb", 0>>, <<"inc", 1, "unb", 0>>, <<"unb", 0, "exc", v.len + 1>>,
                 <<"unb", 0, "inc", v.len>>, <<"inc", v.len, "exc", v.len>>, <<"unb", 0, "inc", Top>>}
           ELSE {<<"unb", 0, "unb", 0>>, <<"inc", 0, "inc", v.len>>, <<"exc", v.len, "unb", 0>>}
SplitPts(v) == IF v.len > MaxInl
               THEN {0, 1, MaxInl, MaxInl + 1, v.len - MaxInl - 1, v.len - MaxInl, v.len, v.len + 1, Top} \cap Nat
               ELSE IF v.len >= MaxInl - 1 THEN {0, v.len, v.len + 1} ELSE {v.len + 1}
Reads(v) == IF v.len >= MaxInl - 1 THEN {0, 1, v.len - MaxInl, v.len + 7} \cap Nat ELSE {0, v.len + 7}

MakeIn(i, c, L) == IF TakesStor(c) THEN FreeStor(st) # {} /\ Make(i, c, i, L, Least(FreeStor(st)))
                   ELSE Make(i, c, i, L, 0)
NextOf(i) ==
    \/ i \in MakeSlots /\ \E c \in Ctors, L \in Lens : MakeIn(i, c, L)
    \/ \E j \in Slots : Clone(i, j) \/ NoallocClone(i, j) \/ Move(i, j)
    \/ Upgrade(i) \/ NoallocUpgrade(i) \/ Predict(i) \/ ToArc(i) \/ Drop(i)
    \/ Stabby /\ (sl[i].k # "none" /\ IsSarc(sl[i]) /\ AtStart(sl[i]) => Whole(sl[i])) /\ ToSarc(i)
    \/ sl[i].k # "none" /\ \E c \in Cuts(sl[i]) : Shrink(i, c[1], c[2], c[3], c[4])
                                               \/ Subslice(i, c[1], c[2], c[3], c[4])
    \/ sl[i].k # "none" /\ \E j \in Slots, n \in SplitPts(sl[i]) : Split(i, j, n)
    \/ sl[i].k # "none" /\ \E n \in Reads(sl[i]) : Read(i, n)
Next == EndBorrow \/ \E i \in Slots : NextOf(i)
Spec == Init /\ [][Next]_vars

Bounded == \A i \in Slots : sl[i].off <= 12 \/ sl[i].len <= 1
View == <<sl, st>>

\* What the driver can see: the shown windows, the references it can count.
Obs(s, t, o) == [res |-> o.res,
                 sl |-> [i \in Slots |-> IF s[i].k = "none" THEN <<>> ELSE <<s[i].src, s[i].off, s[i].len>>],
                 st |-> [x \in Stors |-> IF t[x].ctor \in Counted THEN t[x].rc
                                         ELSE IF t[x].rc = 0 THEN 0 ELSE IF t[x].ctor = "sarct" THEN -2 ELSE -1]]
Key(s, t) == <<[i \in Slots |-> <<s[i].k, s[i].src, s[i].off, s[i].len, s[i].own, s[i].ty>>],
               [x \in Stors |-> <<t[x].ctor, t[x].rc, t[x].off, t[x].len>>]>>
EmitEdge == Emit => PrintT(ToJson(<<Key(sl, st), Key(sl', st'), op'.cmd, Obs(sl', st', op')>>))
=============================================================================
