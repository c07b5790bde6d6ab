----------------------------- MODULE MCFutures -----------------------------
EXTENDS Futures, Json
CONSTANT Emit
View == <<ts, inn>>
Key(s, n) == <<[t \in Tasks |-> <<s[t].kind, s[t].left, s[t].fut, s[t].w, s[t].join, s[t].sig, s[t].jw, s[t].out>>], n>>
EmitEdge == Emit => PrintT(ToJson(<<Key(ts, inn), Key(ts', inn'), op'.cmd,
    [res |-> op'.res, woken |-> op'.woken, inn |-> inn',
     fut |-> Cardinality({t \in Tasks : ts'[t].fut = "live" \/ (ts'[t].kind = "bare" /\ ts'[t].fut = "done")}),
     out |-> Cardinality({t \in Tasks : ts'[t].out = "sent"})]>>))
=============================================================================
