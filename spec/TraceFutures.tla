---------------------------- MODULE TraceFutures ----------------------------
(* Judges what was recorded of tasks on a real, multi-threaded runtime: the life of each task follows
   Futures.tla with the runtime's own steps (signalling, scheduling) hidden.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ts, down, ctx
tvars == <<l, ts, down, ctx>>
Empty == [t \in {} |-> 0]
TraceInit == l = 1 /\ ts = Empty /\ down = FALSE /\ ctx = FALSE
E == Log[l].cmd
T == E[2]
Set(f, v) == ts' = [ts EXCEPT ![T] = [@ EXCEPT ![f] = v]]
Is(name) == E[1] = name /\ UNCHANGED ctx /\ (name = "down" \/ UNCHANGED down)
Known == T \in DOMAIN ts
Fields(k, lf, p) == [kind |-> k, left |-> lf, fate |-> p, fut |-> "live", join |-> "live", out |-> "none", owed |-> 0]

Reset == E[1] = "reset" /\ ts' = Empty /\ down' = FALSE /\ ctx' = FALSE
Spawn == Is("spawn") /\ ts' = ts @@ (E[2] :> Fields(E[3], E[4], E[5]))
Pend == Is("pend") /\ Known /\ ts[T].fut = "live" /\ ts[T].left > 0
        /\ ts' = [ts EXCEPT ![T] = [@ EXCEPT !.left = @ - 1, !.owed = 1]]
Woke == Is("woke") /\ Known /\ ts[T].owed = 1 /\ Set("owed", 0)
\* Completion: only after all its pendings, each of which was woken.
Fin == Is("fin") /\ Known /\ ts[T].fut = "live" /\ ts[T].left = 0 /\ ts[T].fate = "value"
       /\ ts' = [ts EXCEPT ![T] = [@ EXCEPT !.fut = "done", !.out = "live"]]
Boom == Is("boom") /\ Known /\ ts[T].fut = "live" /\ ts[T].left = 0 /\ ts[T].fate = "panic" /\ Set("fut", "boom")
\* The inner future is dropped exactly once; before its end only when the runtime goes down.
Drop == /\ Is("drop") /\ Known
        /\ \/ ts[T].fut = "done" /\ Set("fut", "over")
           \/ ts[T].fut = "boom" /\ Set("fut", "boomed")
           \/ ts[T].fut = "live" /\ down /\ Set("fut", "gone")
\* The output is dropped exactly once: by whoever got it, or when nobody can any more.
OutDrop == Is("odrop") /\ Known /\ ts[T].out = "live" /\ (ts[T].join # "live" \/ down) /\ Set("out", "gone")
Join == /\ Is("join") /\ Known /\ ts[T].join = "live"
        /\ CASE E[3] = "ready" -> ts[T].fut \in {"done", "over"} /\ ts[T].out = "live" /\ E[4] = 10 * T + 5
             [] E[3] = "panic" -> ts[T].fut \in {"boom", "boomed"} \/ (ts[T].kind = "spawn" /\ down)
             [] E[3] = "cancelled" -> ts[T].kind = "block" /\ down /\ ts[T].fut \in {"live", "gone"}
        /\ Set("join", "over")
Unjoin == Is("unjoin") /\ Known /\ ts[T].join = "live" /\ Set("join", "gone")
Down == Is("down") /\ down' = TRUE /\ UNCHANGED ts
Enter == E[1] = "enter" /\ ~ctx /\ ctx' = TRUE /\ UNCHANGED <<ts, down>>
Leave == E[1] = "leave" /\ ctx /\ ctx' = FALSE /\ UNCHANGED <<ts, down>>
Current == E[1] = "current" /\ E[2] = ctx /\ UNCHANGED <<ts, down, ctx>>
End == /\ E[1] = "end" /\ E[2] = 0 /\ E[3] = 0 /\ E[4] = 0
       /\ \A t \in DOMAIN ts : /\ ts[t].fut \in {"over", "boomed"} \/ (down /\ ts[t].fut = "gone")
                               /\ ts[t].join # "live" /\ ts[t].out # "live"
       /\ UNCHANGED <<ts, down, ctx>>
TraceNext == l <= Len(Log) /\ l' = l + 1 /\
    (Reset \/ Spawn \/ Pend \/ Woke \/ Fin \/ Boom \/ Drop \/ OutDrop \/ Join \/ Unjoin \/ Down \/ Enter \/ Leave \/ Current \/ End)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
