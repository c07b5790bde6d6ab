------------------------------ MODULE CStrings ------------------------------
(* NUL-terminated strings, owned (char_p::Box) and borrowed (char_p::Ref), and the Rust values they
   are built from and turned into.  A text is a sequence of characters: 0 is NUL, 1 is one
   byte long, 2 is two bytes, 4 is forty, 5 three hundred, and 3, 6 and 7 are not UTF-8 (only a CStr
   or CString may hold them).
   A C string is kept as what it shows, that is, without its terminator.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NSlots, MaxLen, Chars

VARIABLES sl,   \* slot -> [k, t]
          op

Slots == 1..NSlots
None == [k |-> "none", t |-> <<>>]
Texts == UNION {[1..n -> Chars] : n \in 0..MaxLen}

Enc(c) == CASE c = 0 -> <<0>> [] c = 1 -> <<97>> [] c = 2 -> <<195, 169>> [] c = 3 -> <<255>>
            [] c = 4 -> [j \in 1..40 |-> 97 + (j % 20)]  \* a long stretch
            [] c = 5 -> [j \in 1..300 |-> 97 + (j % 23)]
            [] c = 6 -> <<237, 160, 128>>  \* a surrogate
            [] c = 7 -> <<195>>            \* cut short
RECURSIVE Bytes(_)
Bytes(t) == IF t = <<>> THEN <<>> ELSE Enc(Head(t)) \o Bytes(Tail(t))

\* Sources.  "str" ones may end with a terminator or not; CStr ones carry theirs by construction.
StrSources == {"new_str", "new_sref", "new_string", "new_cstring", "try_string", "try_string_spare"}
CSources == {"new_cstr", "new_stdcstring", "from_stdcstring", "ref_cstr"}
Sources == StrSources \cup CSources \cup {"ref_str"}
Utf8(t) == \A i \in DOMAIN t : t[i] \notin {3, 6, 7}
NulAt(t) == {i \in DOMAIN t : t[i] = 0}
Terminated(t) == t # <<>> /\ t[Len(t)] = 0
Inner(t) == \E i \in NulAt(t) : i < Len(t)
Shown(t) == IF Terminated(t) THEN SubSeq(t, 1, Len(t) - 1) ELSE t

\* What can be written down at all in the source type.
Possible(src, t) == IF src \in CSources THEN NulAt(t) = {} ELSE Utf8(t)
\* ... and what is accepted.
Accepts(src, t) ==
    CASE src \in StrSources -> ~Inner(t)
      [] src = "ref_str" -> t = <<>> \/ (Terminated(t) /\ ~Inner(t))
      [] src \in CSources -> Utf8(t)
Refusal(src, t) ==
    CASE src \in {"try_string", "try_string_spare"} -> <<"err", Bytes(t)>>  \* gives the input back
      [] src = "ref_str" -> <<"err", <<>> >>
      [] OTHER -> <<"panic", <<>> >>

Done(cmd, res, s) == sl' = s /\ op' = [cmd |-> cmd, res |-> res]
Ok == <<"ok", <<>> >>
Bool(b) == <<"ok", <<IF b THEN 1 ELSE 0>> >>

Make(i, src, t) ==
    /\ sl[i].k = "none" /\ Possible(src, t)
    /\ IF Accepts(src, t)
       THEN Done(<<"mk", i, src>> \o Bytes(t), Ok,
                 [sl EXCEPT ![i] = [k |-> IF src \in {"ref_str", "ref_cstr"} THEN "ref" ELSE "box",
                                    t |-> Shown(t)]])
       ELSE Done(<<"mk", i, src>> \o Bytes(t), Refusal(src, t), sl)

Empty(i) == /\ sl[i].k = "none"
            /\ Done(<<"empty", i>>, Ok, [sl EXCEPT ![i] = [k |-> "ref", t |-> <<>>]])

\* All the ways to read one agree.
Look(i) == sl[i].k \in {"box", "ref"} /\ Done(<<"look", i>>, Ok, sl)

Conv(i, to) ==
    /\ <<sl[i].k, to>> \in {<<"box", "string">>, <<"box", "vec">>, <<"ref", "box">>, <<"ref", "raw">>,
                            <<"string", "box">>}
    /\ Done(<<"conv", i, to>>, Ok, [sl EXCEPT ![i].k = IF to = "raw" THEN "ref" ELSE to])

\* From a box: clone (Clone::clone), own (to_owned), refown (as_ref().to_owned()), text (to_string).
Copy(i, j, how) ==
    /\ sl[i].k \in {"box", "ref"} /\ sl[j].k = "none"
    /\ (how = "clone" => TRUE)
    /\ Done(<<"copy", i, j, how>>, Ok,
            [sl EXCEPT ![j] = [k |-> CASE how = "text" -> "string"
                                       [] how = "clone" -> sl[i].k
                                       [] OTHER -> "box", t |-> sl[i].t]])

Equal(i, j) ==
    /\ sl[i].k \in {"box", "ref"} /\ sl[i].k = sl[j].k
    /\ Done(<<"eq", i, j>>, Bool(sl[i].t = sl[j].t), sl)

Drop(i) == sl[i].k # "none" /\ Done(<<"drop", i>>, Ok, [sl EXCEPT ![i] = None])

Init == sl = [i \in Slots |-> None] /\ op = [cmd |-> <<"reset">>, res |-> Ok]
Next == \E i \in Slots :
    \/ \E src \in Sources, t \in Texts : Make(i, src, t)
    \/ Empty(i) \/ Look(i) \/ Drop(i)
    \/ \E to \in {"string", "vec", "box", "raw"} : Conv(i, to)
    \/ \E j \in Slots : Equal(i, j) \/ \E how \in {"clone", "own", "refown", "text"} : Copy(i, j, how)
Spec == Init /\ [][Next]_<<sl, op>>

---------------------------------------------------------------------------
\* No C string hides a NUL, and the strings among the values are UTF-8.
NoInnerNul == \A i \in Slots : NulAt(sl[i].t) = {} /\ Utf8(sl[i].t)
\* What is refused changes nothing.
RefusalIsNeutral == [][op'.res[1] # "ok" => sl' = sl]_<<sl, op>>
\* A conversion or copy shows the same text.
SameText == [][op'.cmd[1] = "conv" => \A i \in Slots : sl'[i].t = sl[i].t]_<<sl, op>>
=============================================================================
