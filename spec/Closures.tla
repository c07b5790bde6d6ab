------------------------------ MODULE Closures ------------------------------
(* FFI closures.  An environment (what a closure captures) lives from its creation to the release of
   its last holder, and counts its calls.  Handles are owned and unique (box), owned and shared (arc),
   borrowed (ref); Rust's own holders are rarc (an Arc) and own (a Box that may be borrowed).  cbox,
   carc and carcn are handles made by C code with its own functions, the last without `retain`.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NSlots, NEnv, MaxCalls, Arity, Kinds

VARIABLES sl,    \* slot -> [k, e]
          env,   \* environment -> [live, refs, calls]
          op
vars == <<sl, env, op>>

Slots == 1..NSlots
Envs == 1..NEnv
None == [k |-> "none", e |-> 0]
Dead == [live |-> FALSE, refs |-> 0, calls |-> 0]
Handles == {"box", "arc", "ref", "cbox", "carc", "carcn"}
Free == {e \in Envs : ~env[e].live}
Fresh == CHOOSE e \in Free : \A x \in Free : e <= x
Lent(i) == sl[i].k = "own" /\ \E j \in Slots : sl[j].k = "ref" /\ sl[j].e = sl[i].e

Done(cmd, res, s, n) == sl' = s /\ env' = n /\ op' = [cmd |-> cmd, res |-> res]
Ok == <<"ok">>

\* how: by `new` or by `into`; rarc and own are Rust values to begin with.
Make(i, k, how) ==
    /\ sl[i].k = "none" /\ Free # {} /\ k \in Kinds \ {"ref"}
    /\ (how = "from" => k \in {"box", "arc"})
    /\ LET e == Fresh IN
       Done(<<"mk", i, k, e, how>>, Ok, [sl EXCEPT ![i] = [k |-> k, e |-> e]],
            [env EXCEPT ![e] = [live |-> TRUE, refs |-> 1, calls |-> 0]])

\* A Rust Arc becomes a handle; a Rust Box lends or becomes one.
Wrap(i, how) ==
    /\ sl[i].k = "rarc" /\ "arc" \in Kinds
    /\ Done(<<"wrap", i, how>>, Ok, [sl EXCEPT ![i].k = "arc"], env)
Borrow(i, j) ==
    /\ sl[i].k = "own" /\ sl[j].k = "none" /\ "ref" \in Kinds /\ ~Lent(i)
    /\ Done(<<"borrow", i, j>>, Ok, [sl EXCEPT ![j] = [k |-> "ref", e |-> sl[i].e]], env)
Give(i) ==
    /\ sl[i].k = "own" /\ "box" \in Kinds /\ ~Lent(i)
    /\ Done(<<"give", i>>, Ok, [sl EXCEPT ![i].k = "box"], env)

\* A call runs the closure once, with these arguments, and returns what it returned.
Call(i, via) ==
    /\ sl[i].k \in Handles \cup {"rarc", "own"} /\ ~Lent(i) /\ env[sl[i].e].calls < MaxCalls
    /\ (via = "c" => sl[i].k \in {"box", "arc", "ref"})
    /\ LET e == sl[i].e
           n == env[e].calls
           args == [k \in 1..Arity |-> 10 * n + k + 30 * e] IN
       Done(<<"call", i, via, 200 + e + n>> \o args, <<"ok", e, n + 1, 200 + e + n>> \o args, sl,
            [env EXCEPT ![e].calls = n + 1])

\* n threads at once clone the handle, and drop their clones.
Storm(i) ==
    /\ sl[i].k = "arc"
    /\ Done(<<"storm", i>>, Ok, sl, env)

Clone(i, j, via) ==
    /\ sl[i].k \in {"arc", "carc", "carcn", "rarc"} /\ sl[j].k = "none"
    /\ (via = "c" => sl[i].k = "arc")
    /\ IF sl[i].k = "carcn" THEN Done(<<"clone", i, j, via>>, <<"panic">>, sl, env)
       ELSE Done(<<"clone", i, j, via>>, Ok, [sl EXCEPT ![j] = sl[i]],
                 [env EXCEPT ![sl[i].e].refs = @ + 1])

Drop(i, via) ==
    /\ sl[i].k # "none" /\ ~Lent(i) /\ (via = "c" => sl[i].k \in {"box", "arc"})
    /\ LET e == sl[i].e
           last == env[e].refs = 1 IN
       Done(<<"drop", i, via>>, Ok, [sl EXCEPT ![i] = None],
            CASE sl[i].k = "ref" -> env [] last -> [env EXCEPT ![e] = Dead]
              [] OTHER -> [env EXCEPT ![e].refs = @ - 1])

Move(i, j) == /\ sl[i].k # "none" /\ sl[j].k = "none" /\ ~Lent(i)
              /\ Done(<<"move", i, j>>, Ok, [sl EXCEPT ![j] = sl[i], ![i] = None], env)

Init == sl = [i \in Slots |-> None] /\ env = [e \in Envs |-> Dead] /\ op = [cmd |-> <<"reset">>, res |-> Ok]
Next == \E i \in Slots :
    \/ \E k \in Kinds, how \in {"new", "from"} : Make(i, k, how)
    \/ \E how \in {"new", "from"} : Wrap(i, how)
    \/ Give(i) \/ Storm(i)
    \/ \E via \in {"rust", "c"} : Call(i, via) \/ Drop(i, via)
    \/ \E j \in Slots : Borrow(i, j) \/ Move(i, j) \/ \E via \in {"rust", "c"} : Clone(i, j, via)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Holders(e) == {i \in Slots : sl[i].e = e /\ sl[i].k \notin {"none", "ref"}}
\* The count is the number of holders: an environment lives exactly while someone holds it.
CountsExact == \A e \in Envs : /\ env[e].refs = Cardinality(Holders(e))
                               /\ env[e].live <=> Holders(e) # {}
UniqueOwners == \A i \in Slots : sl[i].k \in {"box", "cbox", "own"} => Holders(sl[i].e) = {i}
\* A borrowed handle never dangles and never keeps alive.
RefsValid == \A i \in Slots : sl[i].k = "ref" =>
                \E j \in Slots : sl[j].k = "own" /\ sl[j].e = sl[i].e
\* Only calls run a closure, one at a time.
CallsOnly == [][\A e \in Envs : env[e].live /\ env'[e].live =>
                  env'[e].calls = env[e].calls + (IF op'.cmd[1] = "call" /\ sl[op'.cmd[2]].e = e THEN 1 ELSE 0)]_vars
=============================================================================
