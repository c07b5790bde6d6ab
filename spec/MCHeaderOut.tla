---------------------------- MODULE MCHeaderOut ----------------------------
(* The writer's answers, call by call, are the schedules of faults that the real writer follows:
   "all" takes the piece offered, "one" a single byte of it, "half" half of it. *)
EXTENDS HeaderOut, FiniteSets, Json
CONSTANTS Pieces, MaxFaults, Emit
VARIABLES sched,   \* the answers to the writes so far
          fl       \* the answers to the flushes so far
mvars == <<len, pos, err, flushed, intr, res, sched, fl>>
Kinds == {"other", "pipe", "zero", "os", "block"}
PieceLen == 2
Spicy == Cardinality({i \in DOMAIN sched : sched[i] # "all"}) + Cardinality({i \in DOMAIN fl : fl[i] # "ok"})
Can == Spicy < MaxFaults
W(x) == sched' = Append(sched, x) /\ UNCHANGED fl
F(x) == fl' = Append(fl, x) /\ UNCHANGED sched
Rest == PieceLen - (pos % PieceLen)
InWrites == err = "none" /\ pos < len
Step ==
  \/ /\ InWrites /\ Accept(Rest) /\ W("all")
  \/ /\ InWrites /\ Can /\ Rest = PieceLen /\ Accept(1) /\ \E x \in {"one", "half"} : W(x)
  \/ /\ InWrites /\ Can /\ Interrupt /\ W("intr")
  \/ /\ InWrites /\ Can /\ \E k \in Kinds : Fail(k) /\ W(k)
  \/ /\ err = "none" /\ pos = len /\ ~flushed
     /\ \/ FlushOk /\ F("ok")
        \/ Can /\ ~intr /\ FlushIntr /\ F("intr")
        \/ Can /\ \E k \in Kinds \ {"zero"} : Fail(k) /\ F(k)
Stop == \E r \in Kinds \cup {"ok", "interrupted"} : End(r) /\ UNCHANGED <<sched, fl>>
        /\ (Emit => PrintT(ToJson(<<sched, fl, r>>)))
MCInit == Start(PieceLen * Pieces) /\ sched = <<>> /\ fl = <<>>
MCSpec == MCInit /\ [][Step \/ Stop]_mvars
=============================================================================
