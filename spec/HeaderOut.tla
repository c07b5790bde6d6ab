----------------------------- MODULE HeaderOut -----------------------------
(* Writing a generated text of Len bytes to a writer that may accept it in pieces, be interrupted, refuse
   to go on, or fail, at every write and every flush; and what generation has to report then.  *)
EXTENDS Integers, Sequences, TLC

VARIABLES len,      \* length of the text
          pos,      \* what the writer accepted: the first pos bytes of the text
          err,      \* the first failure, or "none"
          flushed,  \* nothing was accepted since the last flush that worked
          intr,     \* the last flush was interrupted (which nobody has to repeat)
          res       \* "running", "ok", or the failure reported
hvars == <<len, pos, err, flushed, intr, res>>

Start(n) == len = n /\ pos = 0 /\ err = "none" /\ flushed = FALSE /\ intr = FALSE /\ res = "running"
StartPrime(n) == len' = n /\ pos' = 0 /\ err' = "none" /\ flushed' = FALSE /\ intr' = FALSE /\ res' = "running"

(* Everything offered is a piece of what is left, so only its length matters. *)
Accept(n) == /\ res = "running" /\ n >= 1 /\ pos + n <= len
             /\ pos' = pos + n /\ flushed' = FALSE /\ intr' = FALSE /\ UNCHANGED <<len, err, res>>
Fail(k) == /\ res = "running" /\ err' = (IF err = "none" THEN k ELSE err) /\ intr' = FALSE
           /\ UNCHANGED <<len, pos, flushed, res>>
Interrupt == res = "running" /\ UNCHANGED hvars    \* of a write: to be repeated
FlushOk == res = "running" /\ flushed' = TRUE /\ intr' = FALSE /\ UNCHANGED <<len, pos, err, res>>
FlushIntr == res = "running" /\ intr' = TRUE /\ UNCHANGED <<len, pos, err, flushed, res>>

End(r) ==
  /\ res = "running" /\ res' = r /\ UNCHANGED <<len, pos, err, flushed, intr>>
  /\ \/ r = "ok" /\ err = "none" /\ pos = len /\ flushed
     \/ r # "ok" /\ r = err
     \/ r = "interrupted" /\ err = "none" /\ intr

NeverHalf == res = "ok" => pos = len /\ err = "none" /\ flushed
Reported == res \notin {"running", "ok"} => err = res \/ intr
Grows == [][len' = len => pos' >= pos]_hvars
=============================================================================
