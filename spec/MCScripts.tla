----------------------------- MODULE MCScripts -----------------------------
EXTENDS Headers, Json
CONSTANTS NNames, MaxOps, MaxDepth, Emit
Names == 1..NNames
Step == /\ Len(log) < MaxOps
        /\ \/ \E n \in Names : (Len(stack) < MaxDepth \/ n \in defined) /\ Begin(n)
           \/ \E n \in Names : Insert(n)
           \/ Write(Len(log))
           \/ Finish
           \/ \E k \in 1..MaxDepth : Fails(k)
\* A complete script: told when everything begun has ended.
Tell == (Emit /\ stack' = <<>> /\ Len(log') >= 2) => PrintT(ToJson(<<log', defined'>>))
MCInit == defined = {} /\ stack = <<>> /\ log = <<>>
MCSpec == MCInit /\ [][Step]_svars
\* Names are interchangeable: the first mention of each comes in order.
Mention(e) == IF e[1] \in {"begin", "insert", "already"} THEN e[2] ELSE 0
Ordered == \A n \in Names : n \in defined => \A m \in Names : m < n => m \in defined
=============================================================================
