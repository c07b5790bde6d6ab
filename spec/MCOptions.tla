----------------------------- MODULE MCOptions -----------------------------
EXTENDS Options, Json
CONSTANT Emit
View == <<sl, obj>>
Key(s, m) == <<[i \in Slots |-> <<s[i].k, s[i].o>>], m>>
Tag(s) == IF s.k \in {"tag", "raw"} THEN (IF s.o = 0 THEN 0 ELSE 1) ELSE -1
EmitEdge == Emit => PrintT(ToJson(<<Key(sl, obj), Key(sl', obj'), op'.cmd,
    [res |-> op'.res, sl |-> [i \in Slots |-> <<sl'[i].k, sl'[i].o, Tag(sl'[i])>>], obj |-> obj']>>))
=============================================================================
