---------------------------- MODULE MCContainers ----------------------------
EXTENDS Containers, Json
CONSTANT Emit
View == <<sl, live>>
Key(s, l) == <<[i \in Slots |-> <<s[i].k, s[i].s>>], l>>
EmitEdge == Emit => PrintT(ToJson(<<Key(sl, live), Key(sl', live'), op'.cmd,
    [res |-> op'.res, sl |-> [i \in Slots |-> <<sl'[i].k, sl'[i].s>>], live |-> live']>>))
=============================================================================
