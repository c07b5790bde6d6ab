----------------------------- MODULE Containers -----------------------------
(* Owned containers on both sides of the FFI: Rust's Box, Vec, Box<[T]>, String, Box<str>, and their
   C-layout counterparts.  A container is its kind and the sequence of elements it owns; an element
   is a token that must be dropped exactly once.  Which tokens are alive is a separate variable,
   changed by creations and drops only, so that "alive = owned by exactly one container" is a
   property to check and not a definition.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NSlots, MaxLen, Toks, Family

VARIABLES sl,      \* slot -> [k, s]: kind, sequence of tokens
          live,    \* tokens created and not yet dropped
          op

vars == <<sl, live, op>>
Slots == 1..NSlots
None == [k |-> "none", s |-> <<>>]

Kinds == CASE Family = "vec" -> {"rvec", "cvec", "bslice", "cslice"}
           [] Family = "box" -> {"rbox", "cbox"}
           [] Family = "str" -> {"rstr", "cstr", "bstr", "cstrb"}
IsBox(k) == k \in {"rbox", "cbox"}

\* The conversions the library (or, between Rust types, std) offers.
Conv == {<<"rvec", "cvec">>, <<"cvec", "rvec">>, <<"bslice", "cslice">>, <<"cslice", "bslice">>,
         <<"rvec", "bslice">>, <<"bslice", "rvec">>, <<"rbox", "cbox">>, <<"cbox", "rbox">>,
         <<"rstr", "cstr">>, <<"cstr", "rstr">>, <<"rstr", "cstrb">>, <<"cstrb", "rstr">>,
         <<"bstr", "cstrb">>, <<"cstrb", "bstr">>}

Range(s) == {s[i] : i \in DOMAIN s}
Fresh == Toks \ live
\* The n first unused tokens, in order.
RECURSIVE Take(_, _)
Take(S, n) == IF n = 0 THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Take(S \ {m}, n - 1)
CanTake(n) == Cardinality(Fresh) >= n

Done(cmd, res, s, lv) == /\ sl' = s /\ live' = lv /\ op' = [cmd |-> cmd, res |-> res]
Put(i, k, s) == [sl EXCEPT ![i] = [k |-> k, s |-> s]]

Make(i, k, n) ==
    /\ sl[i].k = "none" /\ k \in Kinds /\ CanTake(n) /\ (IsBox(k) => n = 1)
    /\ LET t == Take(Fresh, n) IN
       Done(<<"mk", i, k>> \o t, "ok", Put(i, k, t), live \cup Range(t))

\* The empty constants and defaults.
Empty(i, k) ==
    /\ sl[i].k = "none" /\ k \in {"cvec", "cslice", "cstr"} \cap Kinds
    /\ Done(<<"empty", i, k>>, "ok", Put(i, k, <<>>), live)

Convert(i, k) ==
    /\ <<sl[i].k, k>> \in Conv
    /\ Done(<<"conv", i, k>>, "ok", Put(i, k, sl[i].s), live)

Clone(i, j) ==
    /\ sl[i].k # "none" /\ sl[j].k = "none" /\ sl[i].k # "cstrb" /\ CanTake(Len(sl[i].s))
    /\ LET t == Take(Fresh, Len(sl[i].s)) IN
       Done(<<"clone", i, j>> \o t, "ok", Put(j, sl[i].k, t), live \cup Range(t))

\* Cloning element n panics: what was cloned before is dropped again, the original is untouched.
CloneBomb(i, j, n) ==
    /\ sl[i].k # "none" /\ sl[j].k = "none" /\ Family # "str" /\ n \in 1..Len(sl[i].s)
    /\ Done(<<"clonebomb", i, j, n>>, "panic", sl, live)

Drop(i) ==
    /\ sl[i].k # "none"
    /\ Done(<<"drop", i>>, "ok", [sl EXCEPT ![i] = None], live \ Range(sl[i].s))

\* The destructor of element n panics: the other elements are dropped all the same.
DropBomb(i, n) ==
    /\ sl[i].k # "none" /\ Family # "str" /\ n \in 1..Len(sl[i].s)
    /\ Done(<<"dropbomb", i, n>>, "panic", [sl EXCEPT ![i] = None], live \ Range(sl[i].s))

Move(i, j) ==
    /\ sl[i].k # "none" /\ sl[j].k = "none"
    /\ Done(<<"move", i, j>>, "ok", [sl EXCEPT ![j] = sl[i], ![i] = None], live)

\* Assignment of element n through one of the mutable views (v): the old element is dropped.
Set(i, n, v) ==
    /\ sl[i].k \in {"cvec", "cslice", "cbox"} /\ n \in 1..Len(sl[i].s) /\ CanTake(1)
    /\ LET t == Take(Fresh, 1)[1] IN
       Done(<<"set", i, n, v, t>>, "ok", Put(i, sl[i].k, [sl[i].s EXCEPT ![n] = t]),
            (live \ {sl[i].s[n]}) \cup {t})

Swap(i, m, n, v) ==
    /\ sl[i].k \in {"cvec", "cslice"} /\ m \in 1..Len(sl[i].s) /\ n \in 1..Len(sl[i].s)
    /\ Done(<<"swap", i, m, n, v>>, "ok",
            Put(i, sl[i].k, [sl[i].s EXCEPT ![m] = sl[i].s[n], ![n] = sl[i].s[m]]), live)

\* Mutation through the Rust type; with p, the closure panics at its end, and what it did stays.
WithRust(i, what, n, p) ==
    /\ sl[i].k \in {"cvec", "cstr"}
    /\ LET s == sl[i].s
           res == IF p THEN "panic" ELSE "ok"
           cmd == <<"wm", i, what, n, IF p THEN 1 ELSE 0>>
           put(c, t, lv) == Done(c, res, Put(i, sl[i].k, t), lv) IN
       CASE what = "push" -> /\ Len(s) < MaxLen /\ CanTake(1) /\ n = 0
                             /\ LET t == Take(Fresh, 1) IN put(cmd \o t, s \o t, live \cup Range(t))
         [] what = "insert" -> /\ Len(s) < MaxLen /\ CanTake(1) /\ n \in 0..Len(s)
                               /\ LET t == Take(Fresh, 1) IN
                                  put(cmd \o t, SubSeq(s, 1, n) \o t \o SubSeq(s, n + 1, Len(s)),
                                      live \cup Range(t))
         [] what = "pop" -> /\ n = 0
                            /\ IF s = <<>> THEN put(cmd, s, live)
                               ELSE put(cmd, SubSeq(s, 1, Len(s) - 1), live \ {s[Len(s)]})
         [] what = "trunc" -> /\ n \in 0..Len(s)
                              /\ put(cmd, SubSeq(s, 1, n), live \ Range(SubSeq(s, n + 1, Len(s))))
         [] what = "take" -> /\ n = 0 /\ put(cmd, <<>>, live \ Range(s))
         [] what = "reserve" -> n = 0 /\ put(cmd, s, live)
         [] what = "shrink" -> n = 0 /\ put(cmd, s, live)

\* Every read-only view of the container, in turn, shows its elements.
Look(i) == /\ sl[i].k # "none" /\ Done(<<"look", i>>, "ok", sl, live)

Init == sl = [i \in Slots |-> None] /\ live = {} /\ op = [cmd |-> <<"reset">>, res |-> "ok"]

NextOf(i) ==
    \/ \E k \in Kinds, n \in 0..MaxLen : Make(i, k, n)
    \/ \E k \in Kinds : Empty(i, k) \/ Convert(i, k)
    \/ \E j \in Slots : Clone(i, j) \/ Move(i, j) \/ \E n \in 1..MaxLen : CloneBomb(i, j, n)
    \/ Drop(i) \/ Look(i) \/ \E n \in 1..MaxLen : DropBomb(i, n)
    \/ \E n \in 1..MaxLen, v \in {"index", "as_mut", "slice"} : Set(i, n, v)
    \/ \E m, n \in 1..MaxLen, v \in {"index", "as_mut", "slice"} : m < n /\ Swap(i, m, n, v)
    \/ \E w \in {"push", "insert", "pop", "trunc", "take", "reserve", "shrink"}, n \in 0..MaxLen,
          p \in BOOLEAN : WithRust(i, w, n, p)
Next == \E i \in Slots : NextOf(i)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
TypeOK == \A i \in Slots : sl[i].k \in Kinds \cup {"none"} /\ Len(sl[i].s) <= MaxLen

\* Every live element is owned, once, by exactly one container; nothing owned is dead.
OwnedOnce == /\ live = UNION {Range(sl[i].s) : i \in Slots}
             /\ \A i, j \in Slots : i # j => Range(sl[i].s) \cap Range(sl[j].s) = {}
             /\ \A i \in Slots : Cardinality(Range(sl[i].s)) = Len(sl[i].s)
BoxHasOne == \A i \in Slots : IsBox(sl[i].k) => Len(sl[i].s) = 1
\* Conversions and views never change contents, nor create or drop an element.
ConvPreserves == [][op'.cmd[1] \in {"conv", "look", "move"} =>
                     /\ live' = live
                     /\ {sl[i].s : i \in Slots} \cup {<<>>} = {sl'[i].s : i \in Slots} \cup {<<>>}]_vars
\* A panic loses nothing that was there before, except what the operation itself drops.
PanicKeeps == [][(op'.res = "panic" /\ op'.cmd[1] = "clonebomb") => sl' = sl /\ live' = live]_vars
=============================================================================
