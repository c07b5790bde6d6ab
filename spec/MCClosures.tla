----------------------------- MODULE MCClosures -----------------------------
EXTENDS Closures, Json
CONSTANT Emit
View == <<sl, env>>
Key(s, n) == <<[i \in Slots |-> <<s[i].k, s[i].e>>], [e \in Envs |-> <<n[e].live, n[e].refs, n[e].calls>>]>>
EmitEdge == Emit => PrintT(ToJson(<<Key(sl, env), Key(sl', env'), op'.cmd,
    [res |-> op'.res, sl |-> [i \in Slots |-> sl'[i].k],
     live |-> {e \in Envs : env'[e].live},
     strong |-> [i \in Slots |-> IF sl'[i].k = "rarc" THEN env'[sl'[i].e].refs ELSE 0]]>>))
=============================================================================
