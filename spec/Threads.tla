------------------------------ MODULE Threads ------------------------------
(* Which handles may move to, or be shared with, another thread; how lifetimes inside of them may change;
   and what may be hidden behind a handle that no longer says what it holds.

   Every handle stands for a Rust type, its counterpart. A type is <<constructor, arguments...>>; a
   payload is <<"leaf", k>> where k says whether it is Send and Sync: B both, S only Send, Y only Sync,
   N none of them.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Leaves == {"B", "S", "Y", "N"}
LeafSend(k) == k \in {"B", "S"}
LeafSync(k) == k \in {"B", "Y"}

(* What the constructors stand for. *)
Owning   == {"box", "vec", "slice_box", "tagged", "tuple1", "array"}     \* hold their argument
Shared   == {"slice_ref", "ref"}                                        \* lend it
Exclusive == {"slice_mut", "mut"}                                       \* lend it to one
Raw      == {"slice_raw", "nonnull_ref", "nonnull_mut", "nonnull_owned"} \* say nothing about it
Generic  == Owning \cup Shared \cup Exclusive \cup Raw
(* Those that hide what they hold, with what is promised about it. Arguments only occur in signatures. *)
Functions == {"fn", "box_fn", "ref_fn", "arc_fn"}
Opaque == [virtual |-> {}, virtual_send |-> {"Send"}, virtual_both |-> {"Send", "Sync"},
           virtual_sup |-> {"Send", "Sync"}, virtual_sup_send |-> {"Send"}, virtual_sup_sync |-> {"Sync"},
           virtual_plain_executor |-> {"Send", "Sync"},
           future |-> {}, future_send |-> {"Send"}, executor |-> {"Send", "Sync"}, drop_glue |-> {},
           dyn_drop |-> {"Send", "Sync"}, box_fn |-> {"Send"}, ref_fn |-> {"Send"}, arc_fn |-> {"Send", "Sync"},
           fn |-> {"Send", "Sync"},
           bytes |-> {"Send", "Sync"}, string |-> {"Send", "Sync"}, str_ref |-> {"Send", "Sync"}, str_box |-> {"Send", "Sync"},
           char_p_ref |-> {"Send", "Sync"}, char_p_box |-> {"Send", "Sync"}]
Atoms == DOMAIN Opaque \ Functions

RECURSIVE Sends(_), Syncs(_)
Sends(t) ==
  CASE t[1] = "leaf" -> LeafSend(t[2])
    [] t[1] \in DOMAIN Opaque -> "Send" \in Opaque[t[1]]
    [] t[1] = "tuple2" -> Sends(t[2]) /\ Sends(t[3])
    [] t[1] \in Owning \cup Exclusive -> Sends(t[2])
    [] t[1] \in Shared -> Syncs(t[2])
    [] OTHER -> FALSE
Syncs(t) ==
  CASE t[1] = "leaf" -> LeafSync(t[2])
    [] t[1] \in DOMAIN Opaque -> "Sync" \in Opaque[t[1]]
    [] t[1] = "tuple2" -> Syncs(t[2]) /\ Syncs(t[3])
    [] t[1] \in Owning \cup Exclusive \cup Shared -> Syncs(t[2])
    [] OTHER -> FALSE

RECURSIVE Types(_)
Types(n) == IF n = 0 THEN {<<"leaf", k>> : k \in Leaves}
            ELSE {<<c, t>> : c \in Generic, t \in Types(n - 1)}
Pairs == {<<"tuple2", <<"leaf", a>>, <<"leaf", b>>>> : a \in Leaves, b \in Leaves}
Closures == {<<c, <<"leaf", a>>, <<"leaf", b>>>> : c \in Functions, a \in Leaves, b \in Leaves}
Plain == {<<c>> : c \in Atoms}
Wrapped == {<<c, t>> : c \in Generic, t \in Plain}

-----------------------------------------------------------------------------
(* What one may do with a lifetime inside a type: shorten it (it is only read from there), lengthen it
   (it is only given to it), both (it does not occur) or nothing. The counterpart of a closure is the most
   permissive sound one, a function; nothing more than that is allowed. *)
Combine(v, w) == CASE v = "none" \/ w = "none" -> "none" [] v = "both" \/ w = "both" -> "both"
                   [] v = w -> "shorten" [] OTHER -> "lengthen"
VarOf(c, i) == CASE c \in {"slice_mut", "mut"} -> "none"
                 [] c = "nonnull_mut" -> "none"
                 [] c \in {"fn", "box_fn", "ref_fn", "arc_fn"} -> (IF i = 2 THEN "shorten" ELSE "lengthen")   \* result, argument
                 [] OTHER -> "shorten"
RECURSIVE Variance(_)
Variance(cs) == IF cs = <<>> THEN "shorten" ELSE Combine(VarOf(cs[1][1], cs[1][2]), Variance(Tail(cs)))
(* A nest of constructors, outermost first, each with the position of the one inside. *)
Steps == {<<c, 2>> : c \in (Generic \ {"array"}) \cup {"tuple2"}} \cup {<<"tuple2", 3>>}
CallSteps == {<<c, i>> : c \in Functions, i \in {2, 3}}
Nests(n) == IF n = 1 THEN {<<s>> : s \in Steps \cup CallSteps} ELSE {<<s, u>> : s \in Steps \cup CallSteps, u \in Steps}
MayShorten(cs) == Variance(cs) \in {"shorten", "both"}
MayLengthen(cs) == Variance(cs) \in {"lengthen", "both"}

-----------------------------------------------------------------------------
(* Hiding a value behind a handle. A way in takes the value by some pointer; what the handle promises
   (threads, how long it lives) has to hold of that pointer to that value. *)
Pointers == {"Box", "Rc", "Arc", "ref", "mut"}
PtrSends(p, k) == CASE p \in {"Box", "mut", "value"} -> LeafSend(k) [] p = "ref" -> LeafSync(k)
                    [] p = "Arc" -> LeafSend(k) /\ LeafSync(k) [] OTHER -> FALSE
PtrSyncs(p, k) == CASE p \in {"Box", "mut", "ref", "value"} -> LeafSync(k)
                    [] p = "Arc" -> LeafSend(k) /\ LeafSync(k) [] OTHER -> FALSE
Keeps(p, k, promises) == ("Send" \in promises => PtrSends(p, k)) /\ ("Sync" \in promises => PtrSyncs(p, k))

(* Interfaces: nothing can only be dropped; shr only reads; the _clone ones can be cloned too; mutable changes its value; pinned does so
   without moving it; the sup ones have Send or Sync (or, hidden behind another trait, both) among their supertraits,
   which their handles promise, then, without saying so. Sharing pointers must not give out what changes a value, one that lends to a single
   holder must not be cloned, and only pinned pointers pin. *)
Traits == {"nothing", "nothing_clone", "shr", "shr_clone", "mutable", "mutable_clone", "pinned",
           "sup_both", "sup_send", "sup_sync", "sup_send_mut", "sup_behind"}
Supers(tr) == CASE tr \in {"sup_both", "sup_behind"} -> {"Send", "Sync"}
                [] tr \in {"sup_send", "sup_send_mut"} -> {"Send"} [] tr = "sup_sync" -> {"Sync"} [] OTHER -> {}
Changes(tr) == tr \in {"mutable", "mutable_clone", "pinned", "sup_send_mut"}
Clones(tr) == tr \in {"nothing_clone", "shr_clone", "mutable_clone", "sup_both", "sup_send", "sup_sync", "sup_behind"}
Fits(p, tr, pin) == (p \in {"Rc", "Arc", "ref"} => ~Changes(tr)) /\ (p = "mut" => ~Clones(tr)) /\ (tr = "pinned" => pin)
(* What the library sets out to support; beyond it, refusing is fine. *)
HasShared(tr) == tr \in {"shr", "shr_clone", "sup_both", "sup_send", "sup_sync", "sup_behind"}
Supported(p, tr, promises, pin) ==
  /\ (pin <=> tr = "pinned")
  /\ promises \in {{}, {"Send", "Sync"}} \/ (promises = {"Send"} /\ ~HasShared(tr))    \* nothing else is a handle at all
  /\ CASE p \in {"Box", "mut"} -> TRUE
       [] p = "Rc" -> promises = {}
       [] p = "Arc" -> promises = {"Send", "Sync"}
       [] OTHER -> promises \in {{}, {"Send", "Sync"}}
Hidings == [p : Pointers, tr : Traits, promises : SUBSET {"Send", "Sync"}, k : Leaves, long : BOOLEAN, wants : BOOLEAN, pin : BOOLEAN]
(* long: the value outlives everything; wants: the handle claims so. *)
HideVerdict(h) ==
  IF ~Keeps(h.p, h.k, h.promises \cup Supers(h.tr)) \/ ~Keeps("value", h.k, Supers(h.tr)) \/ (h.wants /\ ~h.long) \/ ~Fits(h.p, h.tr, h.pin) THEN "refused"
  ELSE IF Supers(h.tr) # {} /\ h.p # "Box" THEN "either"
  ELSE IF Supported(h.p, h.tr, h.promises, h.pin) /\ (h.p \in {"ref", "Arc"} /\ h.promises # {} => LeafSend(h.k) /\ LeafSync(h.k))
       THEN "accepted" ELSE "either"

(* The other ways in: <<promises, outlives everything, whether anything less is surely accepted>>. *)
Doors == [box_fn_new |-> <<{"Send"}, TRUE>>, box_fn_from |-> <<{"Send"}, TRUE>>, box_fn_2 |-> <<{"Send"}, TRUE>>,
          ref_fn_from |-> <<{"Send"}, FALSE>>, arc_fn_new |-> <<{"Send", "Sync"}, TRUE>>, arc_fn_from |-> <<{"Send", "Sync"}, TRUE>>,
          bytes_arc |-> <<{"Send", "Sync"}, TRUE>>, bytes_stabby_arc |-> <<{"Send", "Sync"}, TRUE>>, dyn_drop |-> <<{"Send", "Sync"}, TRUE>>,
          future_box |-> <<{}, FALSE>>, future_box_send |-> <<{"Send"}, FALSE>>, future_static |-> <<{}, TRUE>>,
          bytes_ref |-> <<{}, TRUE>>, bytes_array |-> <<{}, TRUE>>, bytes_str |-> <<{}, TRUE>>, bytes_static |-> <<{}, TRUE>>,
          bytes_lend |-> <<{}, FALSE>>, slice_lend |-> <<{}, FALSE>>, slice_keep |-> <<{}, TRUE>>, str_keep |-> <<{}, TRUE>>,
          slice_mut_keep |-> <<{}, TRUE>>, char_p_keep |-> <<{}, TRUE>>, bytes_upgrade |-> <<{}, FALSE>>, bytes_copy |-> <<{}, FALSE>>,
          bytes_inline |-> <<{}, FALSE>>, bytes_slice_keep |-> <<{}, TRUE>>, ref_fn_keep |-> <<{}, TRUE>>,
          spawn |-> <<{"Send"}, TRUE>>, spawn_result |-> <<{"Send"}, TRUE>>, spawn_blocking |-> <<{"Send"}, TRUE>>,
          spawn_blocking_result |-> <<{"Send"}, TRUE>>, block_on |-> <<{}, FALSE>>, block_on_result |-> <<{}, FALSE>>]
DoorVerdict(d, k, long) ==
  IF ~Keeps("value", k, Doors[d][1]) \/ (Doors[d][2] /\ ~long) THEN "refused"
  ELSE IF ~long /\ d = "ref_fn_from" THEN "either" ELSE "accepted"

-----------------------------------------------------------------------------
(* Laws. *)
Laws ==
  /\ \A t \in Types(1) \cup Types(2) :
       /\ (t[1] \in Shared => (Sends(t) <=> Syncs(t)))
       /\ (t[1] \in Raw => ~Sends(t) /\ ~Syncs(t))
       /\ (t[1] \in Owning \cup Exclusive => (Sends(t) <=> Sends(t[2])))
  /\ \A cs \in Nests(1) \cup Nests(2) : ~(MayShorten(cs) /\ MayLengthen(cs))
  /\ \A h \in Hidings : HideVerdict(h) = "accepted" => Keeps(h.p, h.k, h.promises \cup Supers(h.tr)) /\ (h.wants => h.long)
  /\ \A p \in Pointers, k \in Leaves : Keeps(p, k, {})
=============================================================================
