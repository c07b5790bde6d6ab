------------------------------ MODULE Headers ------------------------------
(* Defining names once, and the headers of a library built on it.

   Scripts: arbitrary nestings of define_once, whose callbacks write, define further names, fail, or
   recover from the failure of a nested definition.

   Libraries: exports (functions, constants) and types, each with the names its declaration needs.
   Generation visits the exports in order; a type that is defined already is skipped, whereas a second
   export of a name is an error.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES defined,  \* the names the definer knows
          stack,    \* names whose definition has begun, and not ended
          log       \* what happened
svars == <<defined, stack, log>>

Top == stack[Len(stack)]
Say(x) == log' = Append(log, x)

Begin(n) == IF n \in defined
            THEN UNCHANGED <<defined, stack>> /\ Say(<<"already", n>>)
            ELSE defined' = defined \cup {n} /\ stack' = Append(stack, n) /\ Say(<<"begin", n>>)
Insert(n) == defined' = defined \cup {n} /\ UNCHANGED stack /\ Say(<<"insert", n, n \notin defined>>)
Write(x) == UNCHANGED <<defined, stack>> /\ Say(<<"text", x>>)
Finish == stack # <<>> /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED defined /\ Say(<<"end", Top>>)
(* The callback fails; the error ends the k innermost definitions, and is caught or reported there.  A
   name whose definition failed stays known: it is never tried again. *)
Fails(k) == /\ k >= 1 /\ k <= Len(stack)
            /\ stack' = SubSeq(stack, 1, Len(stack) - k) /\ UNCHANGED defined /\ Say(<<"fail", k>>)

Count(p(_)) == Cardinality({i \in DOMAIN log : p(log[i])})
BegunOnce == \A n \in defined : Count(LAMBDA e : e = <<"begin", n>> \/ e = <<"insert", n, TRUE>>) <= 1
KnownStays == [][defined \subseteq defined']_svars
=============================================================================
