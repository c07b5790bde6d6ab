----------------------------- MODULE DynTraits -----------------------------
(* Virtual objects.  An object has a concrete type (tag) and a value; Rust holds it as val (a Box),
   rc or arc.  Virtual pointers are made from owners (vbox, vrc, varc, and pinned vpbox, vprc, vparc),
   from borrows (vref, vmut, pinned vpref, vpmut), and ddrop is the library's DynDrop.  Whatever the
   pointer, a call reaches its object's own methods; dropping and cloning act as on what it was made
   from.                                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NSlots, NObj, MaxVal, Tags,
          VKinds,     \* the virtual pointers of the trait at hand
          Cloneable,  \* the trait was declared with Clone
          Methods     \* subset of {"get", "bump", "mix", "default", "unit", "add"}

VARIABLES sl,    \* slot -> [k, o]
          ob,    \* object -> [live, refs, tag, val]
          op
vars == <<sl, ob, op>>

Slots == 1..NSlots
Objs == 1..NObj
None == [k |-> "none", o |-> 0]
Dead == [live |-> FALSE, refs |-> 0, tag |-> 0, val |-> 0]
Owned == {"vbox", "vpbox"}
Shared == {"vrc", "varc", "vprc", "vparc", "ddrop"}
Exclusive == {"vmut", "vpmut"}
Borrows == {"vref", "vpref"} \cup Exclusive
RustKinds == (IF VKinds \cap (Owned \cup Borrows) # {} THEN {"val"} ELSE {})
             \cup (IF VKinds \cap {"vrc", "vprc"} # {} THEN {"rc"} ELSE {})
             \cup (IF VKinds \cap {"varc", "vparc"} # {} THEN {"arc"} ELSE {})
             \cup (VKinds \cap {"ddrop"})
Became == [val |-> Owned, rc |-> {"vrc", "vprc"}, arc |-> {"varc", "vparc"}]

NoSize == 4  \* the type without a size but with a destructor; 5 has no destructor
Free == {o \in Objs : ~ob[o].live}
Fresh == CHOOSE o \in Free : \A x \in Free : o <= x
BorrowsOf(i) == {j \in Slots : sl[i].k = "val" /\ sl[j].k \in Borrows /\ sl[j].o = sl[i].o}
Lent(i) == BorrowsOf(i) # {}
LentMut(i) == \E j \in BorrowsOf(i) : sl[j].k \in Exclusive

Done(cmd, res, s, b) == sl' = s /\ ob' = b /\ op' = [cmd |-> cmd, res |-> res]
Ok == <<"ok">>

Make(i, k, t) ==
    /\ sl[i].k = "none" /\ Free # {}
    /\ LET o == Fresh IN
       Done(<<"mk", i, k, o, t>>, Ok, [sl EXCEPT ![i] = [k |-> k, o |-> o]],
            [ob EXCEPT ![o] = [live |-> TRUE, refs |-> 1, tag |-> t, val |-> 0]])

Wrap(i, k, how) ==
    /\ sl[i].k \in DOMAIN Became /\ k \in Became[sl[i].k] \cap VKinds /\ ~Lent(i)
    /\ Done(<<"wrap", i, k, how>>, Ok, [sl EXCEPT ![i].k = k], ob)

Borrow(i, j, k, how) ==
    /\ sl[i].k = "val" /\ sl[j].k = "none" /\ k \in Borrows \cap VKinds
    /\ IF k \in Exclusive THEN ~Lent(i) ELSE ~LentMut(i)
    /\ Done(<<"borrow", i, j, k, how>>, Ok, [sl EXCEPT ![j] = [k |-> k, o |-> sl[i].o]], ob)

\* The methods: what they return and the object's new value.
Ret(m, b, x) == CASE m = "get" -> <<b.tag * 1000 + b.val>>
                  [] m = "bump" -> <<b.val + x>>
                  [] m = "add" -> <<b.val + x, b.tag>>
                  [] m = "mix" -> <<b.tag, b.val, x, x + 1, x + 2>>
                  [] m = "default" -> <<IF b.tag = 1 THEN 7 ELSE b.tag>>
                  [] m = "unit" -> <<>>
NewVal(m, b, x) == IF m \in {"bump", "add"} THEN b.val + x ELSE b.val
NeedsMut == {"add"}

Call(i, m, via) ==
    /\ sl[i].k # "none" /\ sl[i].k # "ddrop" /\ m \in Methods
    /\ IF m \in NeedsMut THEN ~Lent(i) ELSE ~LentMut(i)
    /\ (via = "c" => sl[i].k \in VKinds)
    /\ (m \in NeedsMut => sl[i].k \in {"val"} \cup Owned \cup Exclusive)
    /\ LET o == sl[i].o
           x == ob[o].tag + 10 * i IN
       /\ NewVal(m, ob[o], 1) <= MaxVal
       /\ LET y == IF m \in {"bump", "add"} THEN 1 ELSE x IN
          Done(<<"call", i, m, via, y>>, Ok \o Ret(m, ob[o], y), sl,
               [ob EXCEPT ![o].val = NewVal(m, ob[o], y)])

Clone(i, j, via) ==
    /\ sl[j].k = "none"
    /\ \/ sl[i].k \in {"rc", "arc"} /\ via = "rust"
       \/ Cloneable /\ sl[i].k \in VKinds
    /\ (via = "c" => sl[i].k # "ddrop")
    /\ IF sl[i].k \in Owned
       THEN /\ Free # {} /\ ob[sl[i].o].tag # NoSize  \* (which could not be told apart)
            /\ LET o == Fresh IN
               Done(<<"clone", i, j, via, o>>, Ok, [sl EXCEPT ![j] = [k |-> sl[i].k, o |-> o]],
                    [ob EXCEPT ![o] = [ob[sl[i].o] EXCEPT !.refs = 1]])
       ELSE Done(<<"clone", i, j, via, 0>>, Ok, [sl EXCEPT ![j] = sl[i]],
                 IF sl[i].k \in Borrows THEN ob ELSE [ob EXCEPT ![sl[i].o].refs = @ + 1])

Drop(i, via) ==
    /\ sl[i].k # "none" /\ ~Lent(i) /\ (via = "c" => sl[i].k \in VKinds \ {"ddrop"})
    /\ LET o == sl[i].o IN
       Done(<<"drop", i, via>>, Ok, [sl EXCEPT ![i] = None],
            CASE sl[i].k \in Borrows -> ob
              [] sl[i].k \notin Borrows /\ ob[o].refs = 1 -> [ob EXCEPT ![o] = Dead]
              [] OTHER -> [ob EXCEPT ![o].refs = @ - 1])

Move(i, j) == /\ sl[i].k # "none" /\ sl[j].k = "none" /\ ~Lent(i)
              /\ Done(<<"move", i, j>>, Ok, [sl EXCEPT ![j] = sl[i], ![i] = None], ob)

Init == sl = [i \in Slots |-> None] /\ ob = [o \in Objs |-> Dead] /\ op = [cmd |-> <<"reset">>, res |-> Ok]
Next == \E i \in Slots :
    \/ \E k \in RustKinds, t \in Tags : Make(i, k, t)
    \/ \E k \in VKinds, how \in {"into", "from"} :
          Wrap(i, k, how) \/ \E j \in Slots : Borrow(i, j, k, how)
    \/ \E via \in {"rust", "c"} :
          \/ Drop(i, via) \/ \E m \in Methods : Call(i, m, via)
          \/ \E j \in Slots : Clone(i, j, via)
    \/ \E j \in Slots : Move(i, j)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Holders(o) == {i \in Slots : sl[i].o = o /\ sl[i].k \notin Borrows \cup {"none"}}
CountsExact == \A o \in Objs : /\ ob[o].refs = Cardinality(Holders(o))
                               /\ ob[o].live <=> Holders(o) # {}
UniqueOwners == \A i \in Slots : sl[i].k \in Owned \cup {"val"} => Holders(sl[i].o) = {i}
BorrowsValid == \A i \in Slots : sl[i].k \in Borrows =>
                  /\ \E j \in Slots : sl[j].k = "val" /\ sl[j].o = sl[i].o
                  /\ sl[i].k \in Exclusive => \A j \in Slots : sl[j].k \in Borrows /\ sl[j].o = sl[i].o => j = i
\* The concrete type of a live object never changes; a value changes by calls only.
Stable == [][\A o \in Objs : ob[o].live /\ ob'[o].live =>
               /\ ob[o].tag = ob'[o].tag
               /\ ob[o].val # ob'[o].val => op'.cmd[1] = "call" /\ sl[op'.cmd[2]].o = o]_vars
=============================================================================
