-------------------------------- MODULE Maps --------------------------------
(* A map whose keys are views: it behaves as a map of what they show.  A key given again, as whatever
   view, finds the entry; the key that stays is the first one; ordered maps iterate in order. *)
EXTENDS Views
CONSTANTS Keys, NReps    \* sequences (of bytes), and ways to show them
VARIABLES m,    \* key -> 0, or the value stored
          op
mvars == <<m, op>>
Present == {k \in Keys : m[k] # 0}
Cmd(c, r) == op' = [cmd |-> c, res |-> r]
Insert(k, rep, v) == m' = [m EXCEPT ![k] = v] /\ Cmd(<<"insert", k, rep, v>>, <<m[k]>>)
Get(k, rep) == m' = m /\ Cmd(<<"get", k, rep>>, <<m[k]>>)
GetSlice(k) == m' = m /\ Cmd(<<"gets", k>>, <<m[k]>>)     \* looked up by what it shows, not by a view of it
Remove(k, rep) == m' = [m EXCEPT ![k] = 0] /\ Cmd(<<"remove", k, rep>>, <<m[k]>>)
From(k) == m' = m /\ Cmd(<<"from", k>>, <<Cardinality({j \in Present : Compare("u8", j, k) # "lt"})>>)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET least == CHOOSE x \in S : \A y \in S : Compare("u8", x, y) # "gt" IN <<least>> \o Sorted(S \ {least})
All == m' = m /\ Cmd(<<"all">>, <<Sorted(Present)>>)
Init == m = [k \in Keys |-> 0] /\ op = [cmd |-> <<"reset">>, res |-> <<>>]
Next == \/ All
        \/ \E k \in Keys : GetSlice(k) \/ From(k)
        \/ \E k \in Keys, rep \in 1..NReps : Get(k, rep) \/ Remove(k, rep) \/ \E v \in 1..2 : Insert(k, rep, v)
Spec == Init /\ [][Next]_mvars
SortedOnce == LET s == Sorted(Present) IN \A i, j \in DOMAIN s : i < j => Compare("u8", s[i], s[j]) = "lt"
=============================================================================
