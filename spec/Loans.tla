------------------------------- MODULE Loans -------------------------------
(* Programs that borrow from an owner through handles: which of them keep a handle beyond what it borrows
   from. There is an owner, up to two handles made from it (0 and 1) and something derived from handle 0
   (2). Every step that is in conflict with a view (a write to the owner, another exclusive view...)
   ends it; a program is sound if it never uses a view that has ended.

   A row says what kind of handle is borrowed:
     excl     the handle is exclusive (else shared)
     copy     moving a handle leaves it where it was
     glue     dropping the handle runs code, so it is used when it goes out of scope
     own      deriving takes the handle away
     tied     what is derived borrows from the handle itself (else from the owner, like the handle)
     dexcl    what is derived is exclusive
     dglue    as for glue
     derives  something can be derived  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Rows, MaxLen
VARIABLES row, script, owner, view, bad
vars == <<row, script, owner, view, bad>>

(* view[i]: "no", "ok", "ended", "moved" *)
Init == /\ row \in Rows
        /\ script = <<<<"make", 0>>>>
        /\ owner = TRUE
        /\ view = [i \in 0..2 |-> IF i = 0 THEN "ok" ELSE "no"]
        /\ bad = FALSE

End(v, is) == [i \in 0..2 |-> IF i \in is /\ v[i] = "ok" THEN "ended" ELSE v[i]]
Handles == {0, 1}
All == {0, 1, 2}
Step(c, b, v) == /\ script' = Append(script, c) /\ bad' = (bad \/ b) /\ view' = v /\ UNCHANGED row
Held(i) == view[i] \in {"ok", "ended"}
(* What using handle i does to what was derived from it. *)
Touch(v, i) == IF i = 0 /\ row.excl /\ ~row.own THEN End(v, {2}) ELSE v

Make(i) == /\ owner /\ view[i] = "no"
           /\ Step(<<"make", i>>, FALSE, [(IF row.excl THEN End(view, All) ELSE view) EXCEPT ![i] = "ok"])
           /\ UNCHANGED owner
Use(i) == /\ Held(i)
          /\ Step(<<"use", i>>, view[i] = "ended", Touch(view, i))
          /\ UNCHANGED owner
(* Taking a handle away. *)
Move(i) == /\ Held(i)
           /\ Step(<<"move", i>>, view[i] = "ended",
                   [(IF i = 0 /\ ~row.copy /\ ~row.own /\ (row.tied \/ row.excl) THEN End(view, {2}) ELSE view) EXCEPT ![i] = "moved"])
           /\ UNCHANGED owner
Derive == /\ row.derives /\ Held(0) /\ view[2] = "no"
          /\ Step(<<"derive", 0>>, view[0] = "ended",
                  [(IF row.own THEN [view EXCEPT ![0] = "moved"] ELSE view) EXCEPT ![2] = IF view[0] = "ok" THEN "ok" ELSE "ended"])
          /\ UNCHANGED owner
Read == /\ owner /\ Step(<<"read", 0>>, FALSE, IF row.excl THEN End(view, All) ELSE view) /\ UNCHANGED owner
Write == /\ owner /\ Step(<<"write", 0>>, FALSE, End(view, All)) /\ UNCHANGED owner
Leave == /\ owner /\ Step(<<"leave", 0>>, FALSE, End(view, All)) /\ owner' = FALSE

Next == /\ Len(script) < MaxLen
        /\ \/ \E i \in Handles : Make(i) \/ Move(i)
           \/ \E i \in All : Use(i)
           \/ Derive \/ Read \/ Write \/ Leave
Spec == Init /\ [][Next]_vars

(* What goes out of scope at the end and runs code is used then. *)
Glued(i) == IF i = 2 THEN row.dglue ELSE row.glue
AtEnd == \E i \in All : Held(i) /\ Glued(i) /\ view[i] = "ended"
Verdict == IF bad THEN "refused" ELSE IF AtEnd THEN "either" ELSE "accepted"

-----------------------------------------------------------------------------
TypeOK == /\ view \in [All -> {"no", "ok", "ended", "moved"}] /\ owner \in BOOLEAN /\ bad \in BOOLEAN
(* No view of an owner that has left is good, and exclusive handles exclude each other. *)
NoDangling == ~owner => \A i \in All : view[i] # "ok"
Alone == row.excl => ~(view[0] = "ok" /\ view[1] = "ok")
(* Once unsound, always so. *)
Sticky == [][bad => bad']_vars
=============================================================================
