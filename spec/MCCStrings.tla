----------------------------- MODULE MCCStrings -----------------------------
EXTENDS CStrings, Json
CONSTANTS Emit, MakeSlots
Key(s) == [i \in Slots |-> <<s[i].k, Bytes(s[i].t)>>]
View == sl
Bounded == TRUE
EmitEdge == Emit => PrintT(ToJson(<<Key(sl), Key(sl'), op'.cmd, [res |-> op'.res, sl |-> Key(sl')]>>))
Stay == FALSE /\ UNCHANGED <<sl, op>>
OnlyMake == op'.cmd[1] = "mk" => (op'.cmd[2] \in MakeSlots \/ Len(op'.cmd) < 6)
\* The literals of the compile-time constructor (a vector of text, whether it compiles).
Literals == {<<t, ~Inner(t), Shown(t)>> : t \in {t \in Texts : Utf8(t)}}
EmitLits == op.cmd[1] = "reset" => PrintT(ToJson(<<"lits", {<<Bytes(x[1]), x[2], Bytes(x[3])>> : x \in Literals}>>))
=============================================================================
