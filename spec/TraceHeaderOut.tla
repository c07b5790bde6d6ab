--------------------------- MODULE TraceHeaderOut ---------------------------
(* Judges what a real writer saw of real generations: event by event, these are behaviours of HeaderOut. *)
EXTENDS HeaderOut, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Log[l].cmd
TraceInit == Start(0) /\ l = 1
TraceNext == l <= Len(Log) /\ l' = l + 1 /\
  CASE E[1] = "reset" -> StartPrime(E[2])
    [] E[1] = "w" -> Accept(E[2])          \* E[2] bytes were taken, and were the right ones
    [] E[1] = "intr" -> Interrupt
    [] E[1] = "fail" -> Fail(E[2])
    [] E[1] = "flush" -> IF E[2] = "ok" THEN FlushOk ELSE FlushIntr
    [] E[1] = "end" -> End(E[2])
    [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_<<len, pos, err, flushed, intr, res, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
