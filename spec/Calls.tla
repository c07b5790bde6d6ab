-------------------------------- MODULE Calls --------------------------------
(* Calls of exported functions.  Foreign code calls an exported function; its body may call back into
   foreign code, which may call exported functions again, and so on: a stack of exported frames.  A
   panic unwinds within one frame only: it ends at a catch of that frame, or it aborts the process.

   A frame of an `async` export has four segments: what precedes the future, the executor before it
   polls, the future itself, and the executor afterwards; the others have one.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Kinds,      \* the exported functions in play
          MaxDepth,
          Debug       \* built with debug assertions

VARIABLES st,         \* the frames: [k, seg, caught (open catches of the segment), n (what was passed)]
          ended,      \* the process has aborted
          op          \* the last command, and what the outside sees of it
vars == <<st, ended, op>>

AsyncKinds == {"async", "asyncren"}
Segments(k) == IF k \in AsyncKinds THEN 4 ELSE 1
BodySegment(k) == IF k \in AsyncKinds THEN 3 ELSE 1
Params == {"flag", "kind", "ref", "tag", "box", "fn"}   \* the parameters that have invalid values
Panics == {"str", "box", "resume", "index", "drop"}

Depth == Len(st)
Top == st[Depth]
SetTop(f) == [st EXCEPT ![Depth] = f]

(* The arguments of the n-th outstanding call: number, flag, kind, referent, tagged option, id of the
   box, number behind the function, text length. *)
Args(n, k) == LET s == n * 3 + (CASE k = "plain" -> 0 [] k = "renamed" -> 1 [] OTHER -> 2) IN
  <<1000 + s, s % 2, <<1, 2, 64>>[(s % 3) + 1], 5000 + s, IF s % 4 = 0 THEN 0 ELSE 1 + (s % 2), 70 + s, 300 + s, s % 5>>
Result(k, v) == v * 100003 % 65536

Obs(cmd, events, s, e) == st' = s /\ ended' = e /\ op' = [cmd |-> cmd, ev |-> events]
Quiet(cmd, s) == Obs(cmd, <<>>, s, FALSE)

(* Foreign code calls; `bad` names a parameter given an invalid value, if any. *)
Call(k, via, bad) ==
  /\ ~ended /\ Depth < MaxDepth
  /\ bad = "none" \/ Debug      \* otherwise the behaviour is undefined: foreign code must not
  /\ LET n == Depth + 1 IN
     IF bad # "none"
     THEN Obs(<<"call", k, via, bad, n>>, <<<<"abort">>>>, <<>>, TRUE)
     ELSE Obs(<<"call", k, via, bad, n>>, <<<<"enter", k>> \o Args(n, k)>>,
              Append(st, [k |-> k, seg |-> 1, caught |-> 0, n |-> n]), FALSE)

NextSegment ==
  /\ ~ended /\ Depth > 0 /\ Top.caught = 0
  /\ Top.seg < Segments(Top.k) /\ Top.seg # BodySegment(Top.k)
  /\ Obs(<<"next">>, <<<<"segment", Top.seg + 1>>>>, SetTop([Top EXCEPT !.seg = @ + 1]), FALSE)

Catch == /\ ~ended /\ Depth > 0 /\ Top.caught = 0
         /\ Obs(<<"catch">>, <<<<"catching">>>>, SetTop([Top EXCEPT !.caught = @ + 1]), FALSE)
EndCatch == /\ ~ended /\ Depth > 0 /\ Top.caught > 0
            /\ Obs(<<"endcatch">>, <<<<"uncaught">>>>, SetTop([Top EXCEPT !.caught = @ - 1]), FALSE)

Panic(how) ==
  /\ ~ended /\ Depth > 0
  /\ IF Top.caught > 0
     THEN Obs(<<"panic", how>>, <<<<"caught">>>>, SetTop([Top EXCEPT !.caught = @ - 1]), FALSE)
     ELSE Obs(<<"panic", how>>, <<<<"abort">>>>, <<>>, TRUE)

(* The body returns: its box is dropped, and the caller gets the result. *)
Leave == LET v == Top.n * 7 + 1 IN
  IF Segments(Top.k) = BodySegment(Top.k)
  THEN [ev |-> <<<<"returned", Result(Top.k, v)>>>>, s |-> SubSeq(st, 1, Depth - 1)]
  ELSE [ev |-> <<<<"segment", 4>>>>, s |-> SetTop([Top EXCEPT !.seg = 4])]
Return ==
  /\ ~ended /\ Depth > 0 /\ Top.caught = 0 /\ Top.seg = BodySegment(Top.k)
  /\ LET l == Leave IN
     Obs(<<"ret", Top.n * 7 + 1>>, <<<<"dropped", Args(Top.n, Top.k)[6]>>>> \o l.ev, l.s, FALSE)
(* The executor hands out what the future gave. *)
Finish ==
  /\ ~ended /\ Depth > 0 /\ Top.caught = 0 /\ Top.seg = 4
  /\ Obs(<<"fin">>, <<<<"returned", Result(Top.k, Top.n * 7 + 1)>>>>, SubSeq(st, 1, Depth - 1), FALSE)

Init == st = <<>> /\ ended = FALSE /\ op = [cmd |-> <<>>, ev |-> <<>>]
Next ==
  \/ \E k \in Kinds, via \in {"here", "thread"}, bad \in Params \cup {"none"} : Call(k, via, bad)
  \/ NextSegment \/ Catch \/ EndCatch \/ Return \/ Finish
  \/ \E how \in Panics : Panic(how)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What never happens: a frame left by anything but its own return; a body run on a bad argument. *)
FramesLeftByReturn ==
  [][(Len(st') < Len(st) /\ ~ended') => op'.cmd[1] \in {"ret", "fin"} /\ Len(st') = Len(st) - 1]_vars
NeverUnwinds ==
  [][op'.cmd[1] = "panic" => \/ ended'
                             \/ /\ Len(st') = Len(st)
                                /\ SubSeq(st', 1, Len(st) - 1) = SubSeq(st, 1, Len(st) - 1)]_vars
BadNeverRuns ==
  [][(op'.cmd[1] = "call" /\ op'.cmd[4] # "none") => ended' /\ op'.ev = <<<<"abort">>>>]_vars
SegmentsInOrder ==
  \A i \in 1..Len(st) : st[i].seg \in 1..Segments(st[i].k) /\ st[i].caught \in 0..1
=============================================================================
