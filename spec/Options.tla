------------------------------- MODULE Options -------------------------------
(* Tagged options.  A slot holds a tagged option, a standard option (the same rules: the specification
   is replayed against both), a bare payload, or the C form of an option: a tag, and a payload that only
   counts when the tag says so.  Payloads are objects that live from their making to their one drop.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NSlots, NObj

VARIABLES sl,    \* slot -> [k, o]: o = 0 is None
          obj,   \* object -> 0 (dead) or its value, 1 or 2
          op
vars == <<sl, obj, op>>

Slots == 1..NSlots
Objs == 1..NObj
Empty == [k |-> "none", o |-> 0]
Options == {"tag", "std"}
Free == {x \in Objs : obj[x] = 0}
Fresh == CHOOSE x \in Free : \A y \in Free : x <= y
Val(o) == obj[o]

Done(cmd, res, s, m) == sl' = s /\ obj' = m /\ op' = [cmd |-> cmd, res |-> res]
Ok == <<"ok">>
Kill(o) == IF o = 0 THEN obj ELSE [obj EXCEPT ![o] = 0]
Put(i, k, o) == [sl EXCEPT ![i] = [k |-> k, o |-> o]]
Shown(o) == IF o = 0 THEN 0 ELSE Val(o)
IsOpt(i) == sl[i].k \in Options

Make(i, k, v, how) ==
  /\ sl[i].k = "none" /\ k \in Options \cup {"val", "raw"}
  /\ (v = 0 => k # "val") /\ (v > 0 => Free # {}) /\ (how = "from" => k = "tag" /\ v > 0)
  /\ IF v = 0 THEN Done(<<"mk", i, k, 0, 0, how>>, Ok, Put(i, k, 0), obj)
     ELSE Done(<<"mk", i, k, Fresh, v, how>>, Ok, Put(i, k, Fresh), [obj EXCEPT ![Fresh] = v])
(* C code makes an option: whatever lies behind the tag 0, it is none; other tags are no option. *)
MakeC(i, t, junk) ==
  /\ sl[i].k = "none"
  /\ Done(<<"mkc", i, t, junk>>, Ok, Put(i, IF t = 0 THEN "raw" ELSE "bad", 0), obj)

Convert(i, how) ==
  \/ /\ sl[i].k = "tag" /\ how \in {"into", "into_rust"}
     /\ Done(<<"conv", i, how>>, Ok, Put(i, "std", sl[i].o), obj)
  \/ /\ sl[i].k = "std" /\ how \in {"into", "from"}
     /\ Done(<<"conv", i, how>>, Ok, Put(i, "tag", sl[i].o), obj)
  \/ /\ sl[i].k = "val" /\ how = "from"
     /\ Done(<<"conv", i, how>>, Ok, Put(i, "tag", sl[i].o), obj)
ToC(i) == /\ sl[i].k = "tag"
          /\ Done(<<"toc", i>>, Ok, Put(i, "raw", sl[i].o), obj)
FromC(i, how) ==
  \/ /\ sl[i].k = "raw" /\ how \in {"checked", "unchecked"}
     /\ Done(<<"fromc", i, how>>, Ok, Put(i, "tag", sl[i].o), obj)
  \/ /\ sl[i].k = "bad" /\ how = "checked"
     /\ Done(<<"fromc", i, how>>, <<"invalid">>, [sl EXCEPT ![i] = Empty], obj)

Ref(i) == /\ IsOpt(i)
          /\ Done(<<"ref", i>>, <<"shows", Shown(sl[i].o)>>, sl, obj)
Mut(i) == /\ IsOpt(i)
          /\ LET o == sl[i].o IN
             Done(<<"mut", i>>, <<"shows", Shown(o)>>, sl, IF o = 0 THEN obj ELSE [obj EXCEPT ![o] = 3 - @])
Take(i, j) == /\ IsOpt(i) /\ sl[j].k = "none"
              /\ Done(<<"take", i, j>>, Ok, [sl EXCEPT ![j] = sl[i], ![i].o = 0], obj)

(* Exactly one of the functions is called, once. *)
MapOrElse(i, mode) ==
  /\ IsOpt(i)
  /\ LET o == sl[i].o IN
     CASE mode = "value" ->
            Done(<<"map", i, mode>>, IF o = 0 THEN <<"default", 40>> ELSE <<"f", 50 + Val(o)>>, [sl EXCEPT ![i] = Empty], Kill(o))
       [] mode = "keep" ->
            Done(<<"map", i, mode>>, IF o = 0 THEN <<"default", 0>> ELSE <<"f", Val(o)>>,
                 IF o = 0 THEN [sl EXCEPT ![i] = Empty] ELSE Put(i, "val", o), obj)
       [] OTHER -> Done(<<"map", i, mode>>, <<IF o = 0 THEN "default" ELSE "f", "panic">>, [sl EXCEPT ![i] = Empty], Kill(o))
UnwrapOrElse(i, mode) ==
  /\ IsOpt(i)
  /\ LET o == sl[i].o IN
     IF o # 0 THEN Done(<<"unwrap", i, mode, 0>>, <<"own", Val(o)>>, Put(i, "val", o), obj)
     ELSE IF mode = "panic" THEN Done(<<"unwrap", i, mode, 0>>, <<"default", "panic">>, [sl EXCEPT ![i] = Empty], obj)
     ELSE /\ Free # {}
          /\ Done(<<"unwrap", i, mode, Fresh>>, <<"default", 2>>, Put(i, "val", Fresh), [obj EXCEPT ![Fresh] = 2])
AndThen(i, mode) ==
  /\ IsOpt(i)
  /\ LET o == sl[i].o k == sl[i].k IN
     IF o = 0 THEN Done(<<"and_then", i, mode, 0>>, <<"uncalled">>, sl, obj)
     ELSE CASE mode = "same" -> Done(<<"and_then", i, mode, 0>>, <<"f">>, sl, obj)
            [] mode = "none" -> Done(<<"and_then", i, mode, 0>>, <<"f">>, Put(i, k, 0), Kill(o))
            [] mode = "new" -> /\ Free # {}
                               /\ Done(<<"and_then", i, mode, Fresh>>, <<"f">>, Put(i, k, Fresh), [Kill(o) EXCEPT ![Fresh] = 1])
            [] OTHER -> Done(<<"and_then", i, mode, 0>>, <<"f", "panic">>, [sl EXCEPT ![i] = Empty], Kill(o))

Clone(i, j, mode) ==
  /\ IsOpt(i) /\ sl[j].k = "none" /\ i # j
  /\ LET o == sl[i].o IN
     IF o = 0 THEN Done(<<"clone", i, j, mode, 0>>, Ok, [sl EXCEPT ![j] = sl[i]], obj)
     ELSE IF mode = "panic" THEN Done(<<"clone", i, j, mode, 0>>, <<"panic">>, sl, obj)
     ELSE /\ Free # {}
          /\ Done(<<"clone", i, j, mode, Fresh>>, Ok, [sl EXCEPT ![j] = [sl[i] EXCEPT !.o = Fresh]], [obj EXCEPT ![Fresh] = Val(o)])
CloneFrom(i, j) ==   \* the old content of j goes
  /\ IsOpt(i) /\ sl[j].k = sl[i].k /\ i # j
  /\ LET o == sl[i].o d == sl[j].o IN
     IF o = 0 THEN Done(<<"clone_from", i, j, 0>>, Ok, Put(j, sl[i].k, 0), Kill(d))
     ELSE /\ Free # {}
          /\ Done(<<"clone_from", i, j, Fresh>>, Ok, Put(j, sl[i].k, Fresh), [Kill(d) EXCEPT ![Fresh] = Val(o)])

Sign(x, y) == IF x < y THEN "lt" ELSE IF x = y THEN "eq" ELSE "gt"
Compare(i, j) ==
  /\ IsOpt(i) /\ sl[j].k = sl[i].k
  /\ LET a == Shown(sl[i].o) b == Shown(sl[j].o) IN   \* none is the least
     Done(<<"cmp", i, j>>, <<a = b, Sign(a, b), a = b>>, sl, obj)
Format(i) ==
  /\ IsOpt(i)
  /\ Done(<<"fmt", i>>, IF sl[i].o = 0 THEN <<"None">> ELSE <<"Some(" \o ToString(Val(sl[i].o)) \o ")">>, sl, obj)

Drop(i) == /\ sl[i].k \in Options \cup {"val"}
           /\ Done(<<"drop", i>>, Ok, [sl EXCEPT ![i] = Empty], Kill(sl[i].o))

Init == sl = [i \in Slots |-> Empty] /\ obj = [x \in Objs |-> 0] /\ op = [cmd |-> <<"reset">>, res |-> Ok]
Next == \E i \in Slots :
  \/ \E k \in {"tag", "std", "val", "raw"}, v \in 0..2, how \in {"direct", "from"} : Make(i, k, v, how)
  \/ \E t \in {0, 2, 3, 128, 255}, junk \in {0, 1, 255} : MakeC(i, t, junk)
  \/ \E how \in {"into", "into_rust", "from"} : Convert(i, how)
  \/ ToC(i) \/ \E how \in {"checked", "unchecked"} : FromC(i, how)
  \/ Ref(i) \/ Mut(i) \/ Format(i) \/ Drop(i)
  \/ \E mode \in {"value", "keep", "panic"} : MapOrElse(i, mode)
  \/ \E mode \in {"ok", "panic"} : UnwrapOrElse(i, mode)
  \/ \E mode \in {"same", "none", "new", "panic"} : AndThen(i, mode)
  \/ \E j \in Slots : Take(i, j) \/ Compare(i, j) \/ CloneFrom(i, j) \/ \E mode \in {"ok", "panic"} : Clone(i, j, mode)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Holders(x) == {i \in Slots : sl[i].o = x}
(* A payload lives exactly while one slot holds it. *)
HeldOnce == \A x \in Objs : IF obj[x] = 0 THEN Holders(x) = {} ELSE Cardinality(Holders(x)) = 1
(* Only converting, or taking the payload out, changes what a slot is; none stays none unless replaced. *)
KindsKept == [][\A i \in Slots : sl[i].k = "tag" /\ sl'[i].k = "std" => sl'[i].o = sl[i].o]_vars
ValuesKept == [][\A x \in Objs : obj[x] # 0 /\ obj'[x] # 0 /\ obj[x] # obj'[x] =>
                   op'.cmd[1] \in {"mut"} \/ Holders(x) # {i \in Slots : sl'[i].o = x}]_vars
=============================================================================
