---------------------------- MODULE MCDynTraits ----------------------------
EXTENDS DynTraits, Json
CONSTANT Emit
View == <<sl, ob>>
Key(s, b) == <<[i \in Slots |-> <<s[i].k, s[i].o>>],
               [o \in Objs |-> <<b[o].live, b[o].refs, b[o].tag, b[o].val>>]>>
EmitEdge == Emit => PrintT(ToJson(<<Key(sl, ob), Key(sl', ob'), op'.cmd,
    [res |-> op'.res, sl |-> [i \in Slots |-> sl'[i].k], live |-> {o \in Objs : ob'[o].live},
     strong |-> [i \in Slots |-> IF sl'[i].k \in {"rc", "arc"} THEN ob'[sl'[i].o].refs ELSE 0]]>>))
=============================================================================
