------------------------------- MODULE Bytes -------------------------------
(* The byte-string type: values ("slots"), the storages behind them, and every public operation
   that creates, views, shares, splits, upgrades or ends one.

   A value shows a window [src, off, len] of the contents it was built from.  How it holds on to
   them is its kind:
     "inl"  a copy inside the value itself                     (nothing to hold)
     "sta"  'static data                                       (nothing to hold)
     "bor"  borrowed data that can be re-borrowed by a clone   (nothing held: must not outlive it)
     "nob"  borrowed data without a retain function            (the same; a clone has to copy)
     "shr"  one reference to the reference-counted storage own
     "uni"  the only reference to storage own
   ty is the lifetime the value's type promises: "s" ('static) or "b" (that of the borrow).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NSlots,     \* number of slots
          NStor,      \* number of storages alive at once
          Ctors,      \* constructors explored by Next
          Lens,       \* source lengths explored by Next
          Stabby,     \* built with the feature stabby: copies go to an ArcSlice
          MaxInl,     \* the documented inlining limit
          CopyStors   \* storages that copies made by the library itself may be

VARIABLES sl,         \* slot -> value
          st,         \* storage -> [ctor, rc, off, len]: rc references to the window [off, len]
          op          \* last command and its result (an observation, hidden by VIEW)

vars == <<sl, st, op>>
Slots == 1..NSlots
Stors == 1..NStor

None == [k |-> "none", src |-> 0, off |-> 0, len |-> 0, own |-> 0, ty |-> "s"]
Dead == [ctor |-> "none", rc |-> 0, off |-> 0, len |-> 0]
Fresh(ctor, off, len) == [ctor |-> ctor, rc |-> 1, off |-> off, len |-> len]
Val(k, src, off, len, own, ty) ==
    [k |-> k, src |-> src, off |-> off, len |-> len, own |-> own, ty |-> ty]

StaticCtors == {"static", "static_from", "static_str", "static_arr", "empty"}
SharedCtors == {"arc", "arct", "cust_rr", "sarc", "sarct", "sbox", "svec"}
UniqueCtors == {"box", "vec", "cust_r"}
\* Whether the driver can read the storage's reference count.
Counted == {"arc", "arct", "box", "vec", "cust_rr", "cust_r"}

Live(s) == {i \in Slots : s[i].k # "none"}
FreeStor(t) == {o \in Stors : t[o].rc = 0}
Least(S) == CHOOSE o \in S : \A p \in S : o <= p
CopyStor(t) == Least(FreeStor(t) \cap CopyStors)
CanCopy(t) == FreeStor(t) \cap CopyStors # {}

\* Stands for the largest usize.
Top == 2000000000

---------------------------------------------------------------------------
(* Building blocks: each takes and returns [v, t] = a value and the storages. *)

Release(t, v) == IF v.own = 0 THEN t
                 ELSE [t EXCEPT ![v.own] = IF @.rc = 1 THEN Dead ELSE [@ EXCEPT !.rc = @ - 1]]
Retain(t, v)  == IF v.own = 0 THEN t ELSE [t EXCEPT ![v.own].rc = @ + 1]

\* An owned copy of what v shows: inside the value if it fits, else in a new shared storage.
CopyOf(t, v) ==
    IF v.len <= MaxInl
    THEN [v |-> Val("inl", v.src, v.off, v.len, 0, "s"), t |-> t, alloc |-> FALSE]
    ELSE LET o == CopyStor(t) IN
         [v |-> Val("shr", v.src, v.off, v.len, o, "s"),
          t |-> [t EXCEPT ![o] = Fresh("copy", v.off, v.len)], alloc |-> TRUE]

CanShare(v) == v.k \in {"inl", "sta", "bor", "shr"}
Borrows(v)  == v.k \in {"bor", "nob"}

CloneOf(t, v) ==
    IF CanShare(v) THEN [v |-> v, t |-> Retain(t, v), alloc |-> FALSE]
    ELSE [CopyOf(t, v) EXCEPT !.v.ty = v.ty]

\* The window [a, b) of v, v being given up for it.
Window(t, v, a, b) ==
    IF b - a <= MaxInl
    THEN [v |-> Val("inl", v.src, v.off + a, b - a, 0, v.ty), t |-> Release(t, v)]
    ELSE [v |-> [v EXCEPT !.off = @ + a, !.len = b - a], t |-> t]

Lo(sb, sv) == CASE sb = "inc" -> sv [] sb = "exc" -> sv + 1 [] OTHER -> 0
Hi(eb, ev, len) == CASE eb = "inc" -> ev + 1 [] eb = "exc" -> ev [] OTHER -> len

NeedsStor(v) == ~CanShare(v) /\ v.len > MaxInl

---------------------------------------------------------------------------
(* Actions.  op' records the command as the driver reads it, and what it must answer. *)

Done(cmd, res, s, t) == /\ sl' = s /\ st' = t /\ op' = [cmd |-> cmd, res |-> res]

\* Constructors.  src is the content tag of the data; o the storage handed over, if any.
TakesStor(c) == c \in SharedCtors \cup UniqueCtors
Make(i, c, src, L, o) ==
    /\ sl[i].k = "none"
    /\ c = "empty" => L = 0
    /\ IF TakesStor(c) THEN o \in FreeStor(st) ELSE o = 0
    /\ (c = "copied" /\ L > MaxInl) => CanCopy(st)
    /\ LET cmd == <<"mk", i, c, src, L, o>>
           one(ctor) == [st EXCEPT ![o] = Fresh(ctor, 0, L)]
           put(v, t) == Done(cmd, <<"ok">>, [sl EXCEPT ![i] = v], t)
       IN
       CASE c \in StaticCtors -> put(Val("sta", src, 0, L, 0, "s"), st)
         [] c = "slice" -> put(Val(IF L <= MaxInl THEN "inl" ELSE "bor", src, 0, L, 0, "b"), st)
         [] c = "cust_n" -> put(Val("nob", src, 0, L, 0, "b"), st)
         [] c = "cust_t" -> put(Val("bor", src, 0, L, 0, "b"), st)
         [] c = "inline" -> IF L <= MaxInl THEN put(Val("inl", src, 0, L, 0, "s"), st)
                            ELSE Done(cmd, <<"none">>, sl, st)
         [] c = "copied" -> LET r == CopyOf(st, Val("sta", src, 0, L, 0, "s")) IN put(r.v, r.t)
         [] c \in SharedCtors -> put(Val("shr", src, 0, L, o, "s"), one(c))
         [] c \in UniqueCtors -> put(Val("uni", src, 0, L, o, "s"), one(c))

Clone(i, j) ==
    /\ sl[i].k # "none" /\ sl[j].k = "none"
    /\ NeedsStor(sl[i]) => CanCopy(st)
    /\ LET r == CloneOf(st, sl[i]) IN
       Done(<<"clone", i, j>>, <<"ok", r.alloc>>, [sl EXCEPT ![j] = r.v], r.t)

\* (Of a unique owner, what is shown is copied; into the clone itself if it fits.)
NoallocClone(i, j) ==
    /\ sl[i].k # "none" /\ sl[j].k = "none"
    /\ IF ~NeedsStor(sl[i])
       THEN LET r == CloneOf(st, sl[i]) IN
            Done(<<"nclone", i, j>>, <<"ok", FALSE>>, [sl EXCEPT ![j] = r.v], r.t)
       ELSE Done(<<"nclone", i, j>>, <<"none", FALSE>>, sl, st)

Upgrade(i) ==
    /\ sl[i].k # "none"
    /\ (Borrows(sl[i]) /\ sl[i].len > MaxInl) => CanCopy(st)
    /\ LET r == IF Borrows(sl[i]) THEN CopyOf(st, sl[i])
                ELSE [v |-> [sl[i] EXCEPT !.ty = "s"], t |-> st, alloc |-> FALSE] IN
       Done(<<"upgrade", i>>, <<"ok", r.alloc>>, [sl EXCEPT ![i] = r.v], r.t)

NoallocUpgrade(i) ==
    /\ sl[i].k # "none"
    /\ LET v == sl[i] IN
       IF ~Borrows(v) THEN Done(<<"nupgrade", i>>, <<"ok", FALSE>>, [sl EXCEPT ![i].ty = "s"], st)
       ELSE IF v.len <= MaxInl
       THEN Done(<<"nupgrade", i>>, <<"ok", FALSE>>, [sl EXCEPT ![i] = CopyOf(st, v).v], st)
       ELSE Done(<<"nupgrade", i>>, <<"err", FALSE>>, sl, st)

\* The two allocation forecasts.
Predict(i) ==
    /\ sl[i].k # "none"
    /\ LET v == sl[i] IN
       Done(<<"pred", i>>, <<"ok", Borrows(v) /\ v.len > MaxInl, NeedsStor(v)>>, sl, st)

\* Bounds: sb/eb in {"inc", "exc", "unb"}.  By reference: a panic leaves the value as it was.
Shrink(i, sb, sv, eb, ev) ==
    /\ sl[i].k # "none"
    /\ LET v == sl[i]
           a == Lo(sb, sv)
           b == Hi(eb, ev, v.len)
           cmd == <<"shrink", i, sb, sv, eb, ev>> IN
       IF a <= b /\ b <= v.len
       THEN LET r == Window(st, v, a, b) IN Done(cmd, <<"ok">>, [sl EXCEPT ![i] = r.v], r.t)
       ELSE Done(cmd, <<"panic">>, sl, st)

\* By value: a panic consumes the value, which must still be released.
Subslice(i, sb, sv, eb, ev) ==
    /\ sl[i].k # "none"
    /\ LET v == sl[i]
           a == Lo(sb, sv)
           b == Hi(eb, ev, v.len)
           cmd == <<"subs", i, sb, sv, eb, ev>> IN
       IF a <= b /\ b <= v.len
       THEN LET r == Window(st, v, a, b) IN Done(cmd, <<"ok">>, [sl EXCEPT ![i] = r.v], r.t)
       ELSE Done(cmd, <<"panic">>, [sl EXCEPT ![i] = None], Release(st, v))

Split(i, j, n) ==
    /\ sl[i].k # "none" /\ sl[j].k = "none"
    /\ LET v == sl[i]
           cmd == <<"split", i, j, n>>
           put(l, r, t) == Done(cmd, <<"ok">>, [sl EXCEPT ![i] = l, ![j] = r], t)
           inl(a, b) == Val("inl", v.src, v.off + a, b - a, 0, v.ty) IN
       IF n > v.len THEN Done(cmd, <<"err">>, sl, st)
       ELSE IF n <= MaxInl THEN LET r == Window(st, v, n, v.len) IN put(inl(0, n), r.v, r.t)
       ELSE IF v.len - n <= MaxInl THEN LET l == Window(st, v, 0, n) IN put(l.v, inl(n, v.len), l.t)
       ELSE /\ NeedsStor(v) => CanCopy(st)
            /\ LET c == CloneOf(st, v)
                   d == CloneOf(c.t, c.v)
               IN put(Window(d.t, c.v, 0, n).v, Window(d.t, c.v, n, v.len).v, Release(d.t, v))

\* io::Read: takes min(n, len) bytes off the front; answers with them.
Read(i, n) ==
    /\ sl[i].k # "none"
    /\ LET v == sl[i]
           m == IF n <= v.len THEN n ELSE v.len
           r == Window(st, v, m, v.len) IN
       Done(<<"read", i, n>>, <<"ok", m, <<v.src, v.off, m>>>>, [sl EXCEPT ![i] = r.v], r.t)

\* Downcast to the owner and, when that works, back to a value of the same storage.
IsArc(v)  == v.k = "shr" /\ st[v.own].ctor \in (IF Stabby THEN {"arc"} ELSE {"arc", "copy"})
IsSarc(v) == v.k = "shr" /\ st[v.own].ctor \in {"sarc", "sbox", "svec", "copy"}
Whole(v)  == v.off = st[v.own].off /\ v.len = st[v.own].len
AtStart(v) == v.off = st[v.own].off

ToArc(i) ==
    /\ sl[i].k # "none"
    /\ Done(<<"toarc", i>>, <<IF IsArc(sl[i]) /\ Whole(sl[i]) THEN "ok" ELSE "err">>, sl, st)

\* The ArcSlice downcast is documented to refuse a shrunk value; the code accepts one that lost
\* only its tail, and hands out exactly what the value showed.  Either answer is allowed.
ToSarc(i) ==
    /\ sl[i].k # "none"
    /\ LET v == sl[i]
           cmd == <<"tosarc", i>> IN
       \/ IsSarc(v) /\ AtStart(v) /\ Done(cmd, <<"ok">>, sl, st)
       \/ ~(IsSarc(v) /\ Whole(v)) /\ Done(cmd, <<"err">>, sl, st)

Drop(i) == /\ sl[i].k # "none"
           /\ Done(<<"drop", i>>, <<"ok">>, [sl EXCEPT ![i] = None], Release(st, sl[i]))

\* Moving a value (a memcpy of its 40 bytes) changes nothing.
Move(i, j) == /\ sl[i].k # "none" /\ sl[j].k = "none"
              /\ Done(<<"move", i, j>>, <<"ok">>, [sl EXCEPT ![j] = sl[i], ![i] = None], st)

\* The borrowed buffers go away.  By then every value whose type says so is gone.
EndBorrow ==
    /\ \A i \in Slots : sl[i].k # "none" => sl[i].ty = "s"
    /\ Done(<<"endborrow">>, <<"ok">>, sl, st)

---------------------------------------------------------------------------
Init == /\ sl = [i \in Slots |-> None]
        /\ st = [o \in Stors |-> Dead]
        /\ op = [cmd |-> <<"reset">>, res |-> <<"ok">>]

---------------------------------------------------------------------------
(* Properties. *)

TypeOK == /\ \A i \in Slots : sl[i].k \in {"none", "inl", "sta", "bor", "nob", "shr", "uni"}
          /\ \A o \in Stors : st[o].rc \in Nat

Refs(o) == {i \in Slots : sl[i].k # "none" /\ sl[i].own = o}

\* A storage is alive exactly as long as values hold it: no leak, no early release.
RefCountsExact == \A o \in Stors : st[o].rc = Cardinality(Refs(o))
UniqueIsUnique == \A i \in Slots : sl[i].k = "uni" => st[sl[i].own].rc = 1
WithinStorage  == \A i \in Slots : sl[i].own # 0 =>
                     /\ sl[i].off >= st[sl[i].own].off
                     /\ sl[i].off + sl[i].len <= st[sl[i].own].off + st[sl[i].own].len
\* No 'static value on borrowed data.
NoStaticBorrow == \A i \in Slots : sl[i].k \in {"bor", "nob"} => sl[i].ty = "b"
InlineFits     == \A i \in Slots : sl[i].k = "inl" => sl[i].len <= MaxInl

\* Operations only ever show windows of what was there (contents are immutable):
\* a step never invents contents, and never touches a slot its command does not name.
Untouched == [][\A i \in Slots : (sl'[i] # sl[i]) =>
                  \E n \in DOMAIN op'.cmd : n > 1 /\ op'.cmd[n] = i]_vars
\* A failure (panic by reference, Err, None) changes nothing.
FailureIsNeutral == [][op'.res[1] \in {"err", "none"} \/ (op'.res[1] = "panic" /\ op'.cmd[1] = "shrink")
                        => sl' = sl /\ st' = st]_vars
=============================================================================
