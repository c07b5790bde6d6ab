----------------------------- MODULE MCLibrary -----------------------------
(* The headers of one library for every set of (at most MaxPre) names known beforehand.  The library is a
   file of lines [n |-> name, k |-> kind, d |-> names its declaration needs], exports in order. *)
EXTENDS Headers, Json, IOUtils
CONSTANTS MaxPre, Emit
Lib == ndJsonDeserialize(IOEnv.LIBRARY)
Names == {Lib[i].n : i \in DOMAIN Lib}
Item(n) == CHOOSE x \in {Lib[i] : i \in DOMAIN Lib} : x.n = n
Exports == SelectSeq(Lib, LAMBDA x : x.k # "type")

VARIABLES pre, todo, status
lvars == <<defined, stack, log, pre, todo, status>>
Tasks(ds) == [i \in DOMAIN ds |-> <<"def", ds[i]>>]

LInit == /\ pre \in {S \in SUBSET Names : Cardinality(S) <= MaxPre}
         /\ defined = pre /\ stack = <<>> /\ log = <<>> /\ status = "running"
         /\ todo = [i \in DOMAIN Exports |-> <<"export", Exports[i].n>>]
Rest == SubSeq(todo, 2, Len(todo))
Do == /\ status = "running" /\ todo # <<>> /\ UNCHANGED pre
      /\ LET t == Head(todo)[1] n == Head(todo)[2] IN
         CASE t = "def" -> /\ Begin(n) /\ UNCHANGED status
                           /\ todo' = IF n \in defined THEN Rest ELSE Tasks(Item(n).d) \o <<<<"end", n>>>> \o Rest
           [] t = "export" -> IF n \in defined /\ Item(n).k = "texport"   \* types are skipped
                              THEN Begin(n) /\ todo' = Rest /\ UNCHANGED status
                              ELSE IF n \in defined
                              THEN status' = "exists" /\ todo' = <<>> /\ UNCHANGED svars
                              ELSE /\ Begin(n) /\ UNCHANGED status
                                   /\ todo' = Tasks(Item(n).d) \o <<<<"end", n>>>> \o Rest
           [] OTHER -> Finish /\ todo' = Rest /\ UNCHANGED status    \* the declaration itself is written
Over == /\ status = "running" /\ todo = <<>> /\ status' = "ok" /\ UNCHANGED <<svars, pre, todo>>
LSpec == LInit /\ [][Do \/ Over]_lvars
Written == SelectSeq(log, LAMBDA e : e[1] = "end")
Tell == (Emit /\ status = "running" /\ status' # "running") =>
          PrintT(ToJson(<<pre, status', [i \in DOMAIN Written |-> Written[i][2]]>>))

Where(n) == {i \in DOMAIN Written : Written[i][2] = n}
WrittenOnce == \A n \in Names : Cardinality(Where(n)) <= (IF n \in pre THEN 0 ELSE 1)
UseAfterDecl == \A n \in Names, i \in DOMAIN Written : Written[i][2] = n =>
                   \A j \in DOMAIN Item(n).d : Item(n).d[j] \in pre \/ \E k \in Where(Item(n).d[j]) : k < i
Complete == status = "ok" => \A i \in DOMAIN Exports : Exports[i].n \in pre \/ Where(Exports[i].n) # {}
FailsIff == status = "exists" => \E i \in DOMAIN Exports : Exports[i].n \in pre
=============================================================================
