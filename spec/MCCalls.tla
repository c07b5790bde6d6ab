------------------------------ MODULE MCCalls ------------------------------
EXTENDS Calls, Json
CONSTANT Emit
View == <<st, ended>>
Key(s, e) == <<IF e THEN 1 ELSE 0, [i \in 1..Len(s) |-> <<s[i].k, s[i].seg, s[i].caught>>]>>
EmitEdge == Emit => PrintT(ToJson(<<Key(st, ended), Key(st', ended'), op'.cmd, op'.ev>>))
=============================================================================
