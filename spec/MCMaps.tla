------------------------------- MODULE MCMaps -------------------------------
EXTENDS Maps, Json
CONSTANT Emit
KeysSmall == {<<>>, <<0>>, <<3>>, <<0, 1>>, [i \in 1..18 |-> 1], [i \in 1..40 |-> IF i = 40 THEN 2 ELSE 1]}
View == m
RECURSIVE Digits(_)
Digits(k) == IF k = <<>> THEN "" ELSE ToString(k[1]) \o Digits(Tail(k))
Text(k) == "k" \o Digits(k)
CmdText(c) == IF Len(c) > 1 THEN [c EXCEPT ![2] = Text(c[2])] ELSE c
Key(f) == {<<Text(k), f[k]>> : k \in {x \in Keys : f[x] # 0}}
EmitEdge == Emit => PrintT(ToJson(<<Key(m), Key(m'), CmdText(op'.cmd), [res |-> op'.res]>>))
=============================================================================
