------------------------------ MODULE Futures ------------------------------
(* Futures across the FFI.  A task is a bare future (behind VirtualPtr<dyn FfiFuture>; "wrap" when it
   is turned into a Rust future again), or a future or blocking action given to an executor (behind VirtualPtr<dyn FfiFutureExecutor>).  Its inner future
   answers pending `left` times, each time keeping the waker it was polled with by some route, then
   yields its output.  The executor is deterministic: it runs, abandons and signals the end of a task
   when told to, in any order.  The caller polls or drops the handle (join) it was given.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NTasks, MaxLeft, Wakers, Kinds, Routes
VARIABLES ts,   \* the tasks
          inn,  \* the number of executor contexts entered
          op
vars == <<ts, inn, op>>

Tasks == 1..NTasks
\* fut: the inner future or action: none | live | done | gone (abandoned); w: the waker it keeps and
\* how; join: none | live | gone; sig: the executor said the task is over; jw: the waker the join keeps;
\* out: none | sent (unread) | gone.
None == [kind |-> "none", left |-> 0, fut |-> "none", w |-> 0, join |-> "none", sig |-> FALSE, jw |-> 0,
         out |-> "none"]
ExecWaker(t) == 100 + t
Bare == {"bare", "wrap"}
Forms(k) == IF k = "wrap" THEN {"box", "boxsend"}
            ELSE IF k = "bare" THEN {"box", "boxsend", "mut", "mutsend"}
            ELSE {"box", "ref", "syncbox", "syncarc", "syncref"}
Value(t, f) == 10 * t + f

\* One step: the result, the wakers woken (in order), and the new state.
Done(cmd, res, wk, s, n) == ts' = s /\ inn' = n /\ op' = [cmd |-> cmd, res |-> res, woken |-> wk]
If(b, x) == IF b THEN x ELSE <<>>

New(t, k, l, f) ==
    /\ ts[t].kind = "none" /\ (k = "block" => l = 0)
    /\ Done(<<"new", t, k, l, f>>, <<"ok">>, <<>>,
            [ts EXCEPT ![t] = [None EXCEPT !.kind = k, !.left = l, !.fut = "live",
                                           !.join = IF k \in Bare THEN "none" ELSE "live"]], inn)

\* Somebody polls the inner future, as `by` (bare: the caller's waker; else the executor's own).
Run(t, w, route, via) ==
    LET x == ts[t]
        me == IF x.kind \in Bare THEN w ELSE ExecWaker(t)
    IN
    /\ x.kind # "none" /\ x.fut = "live"
    /\ (x.kind \notin Bare => w = 1)
    /\ (x.kind # "spawn" => via = "dyn")
    /\ (x.left = 0 => route = "clone")
    /\ IF x.left > 0
       THEN Done(<<"run", t, w, route, via>>, <<"pending">>, If(route = "now", <<me>>),
                 [ts EXCEPT ![t].left = @ - 1, ![t].w = IF route = "now" THEN 0 ELSE me], inn)
       ELSE LET delivered == x.kind \notin Bare /\ x.join = "live" IN
            Done(<<"run", t, w, route, via>>, <<"ready">>, If(delivered /\ x.sig /\ x.jw # 0, <<x.jw>>),
                 [ts EXCEPT ![t].fut = "done", ![t].w = 0,
                            ![t].out = IF delivered THEN "sent" ELSE "gone",
                            ![t].jw = IF x.sig THEN 0 ELSE @], inn)

\* The waker kept by a pending poll is used, once or more; each use reaches the task.
Wake(t, how) ==
    /\ ts[t].fut = "live" /\ ts[t].w # 0
    /\ Done(<<"wake", t, how>>, <<"ok">>, IF how = "twice" THEN <<ts[t].w, ts[t].w>> ELSE <<ts[t].w>>,
            [ts EXCEPT ![t].w = IF how = "val" THEN 0 ELSE @], inn)

\* The future is dropped before it completes (or, when bare, after).
Abandon(t) ==
    LET x == ts[t] IN
    /\ x.kind # "none" /\ (x.fut = "live" \/ (x.kind \in Bare /\ x.fut = "done"))
    /\ Done(<<"abandon", t>>, <<"ok">>, If(x.kind \notin Bare /\ x.join = "live" /\ x.sig /\ x.jw # 0, <<x.jw>>),
            [ts EXCEPT ![t] = IF x.kind \in Bare \/ (x.join = "gone" /\ x.sig) THEN None
                              ELSE [x EXCEPT !.fut = "gone", !.w = 0, !.jw = IF x.sig THEN 0 ELSE @]], inn)

\* The executor reports the end of the task to whoever waits for it.
Signal(t) ==
    /\ ts[t].kind \in {"spawn", "block"} /\ ~ts[t].sig
    /\ Done(<<"signal", t>>, <<"ok">>, If(ts[t].join = "live" /\ ts[t].jw # 0, <<ts[t].jw>>),
            [ts EXCEPT ![t].sig = TRUE, ![t].jw = 0], inn)

\* The caller waits for the outcome.
PollJoin(t, w) ==
    LET x == ts[t]
        over(r) == Done(<<"join", t, w>>, r, <<>>,
                        [ts EXCEPT ![t].join = "gone", ![t].jw = 0, ![t].out = "gone"], inn)
    IN
    /\ x.join = "live"
    /\ CASE x.sig /\ x.out = "sent" -> over(<<"ready", Value(t, 0)>>)
         [] x.sig /\ x.fut = "gone" -> over(IF x.kind = "block" THEN <<"cancelled">> ELSE <<"panic">>)
         [] OTHER -> Done(<<"join", t, w>>, <<"pending">>, <<>>, [ts EXCEPT ![t].jw = w], inn)
DropJoin(t) ==
    /\ ts[t].join = "live"
    /\ Done(<<"dropjoin", t>>, <<"ok">>, <<>>,
            [ts EXCEPT ![t].join = "gone", ![t].jw = 0, ![t].out = IF @ = "sent" THEN "gone" ELSE @], inn)
\* Everything about the task is over: forget it.
Forget(t) ==
    /\ ts[t].kind \in {"spawn", "block"} /\ ts[t].join = "gone" /\ ts[t].fut # "live"
    /\ Done(<<"forget", t>>, <<"ok">>, <<>>, [ts EXCEPT ![t] = None], inn)

\* Blocking on a future: `tries` polls are made; it completes if that is enough.
BlockOn(l, tries, f) ==
    /\ Done(<<"blockon", l, tries, f>>, IF tries > l THEN <<"ready", 500 + l, l + 1>> ELSE <<"panic", tries>>,
            <<>>, ts, inn)
Enter(f) == inn < 2 /\ Done(<<"enter", f>>, <<"ok">>, <<>>, ts, inn + 1)
Leave == inn > 0 /\ Done(<<"leave">>, <<"ok">>, <<>>, ts, inn - 1)

Init == ts = [t \in Tasks |-> None] /\ inn = 0 /\ op = [cmd |-> <<"reset">>, res |-> <<"ok">>, woken |-> <<>>]
Next ==
    \/ \E t \in Tasks :
       \/ \E k \in Kinds : \E f \in Forms(k), l \in 0..MaxLeft : New(t, k, l, f)
       \/ \E w \in Wakers, r \in Routes, via \in {"dyn", "fut"} : Run(t, w, r, via)
       \/ \E how \in {"ref", "val", "twice"} : Wake(t, how)
       \/ Abandon(t) \/ Signal(t) \/ DropJoin(t) \/ Forget(t)
       \/ \E w \in Wakers : PollJoin(t, w)
    \/ "spawn" \in Kinds /\ \E f \in Forms("spawn") :
          Enter(f) \/ \E l \in 0..MaxLeft, n \in 0..MaxLeft + 1 : BlockOn(l, n, f)
    \/ Leave
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* An output exists only between completion and its one delivery; and never after an abandonment.
OutputsExact == \A t \in Tasks : /\ ts[t].out = "sent" => ts[t].fut = "done" /\ ts[t].join = "live"
                                 /\ ts[t].fut = "gone" => ts[t].out # "sent"
\* A waker is kept only where a wake-up can still come from.
NoStaleWaker == \A t \in Tasks : /\ ts[t].w # 0 => ts[t].fut = "live"
                                 /\ ts[t].jw # 0 => ts[t].join = "live" /\ (ts[t].sig => ts[t].fut = "live")
\* Whoever waits is woken by the step that lets it continue.
NoLostWakeup == [][\A t \in Tasks :
    LET ready(x) == x.sig /\ x.fut # "live" IN
    ts[t].jw # 0 /\ ts[t].join = "live" /\ ts'[t].join = "live" /\ ~ready(ts[t]) /\ ready(ts'[t])
      => ts[t].jw \in {op'.woken[i] : i \in DOMAIN op'.woken}]_vars
\* A join yields a value only if the inner future completed.
OnlyRealValues == [][\A t \in Tasks : op'.cmd[1] = "join" /\ op'.cmd[2] = t /\ op'.res[1] = "ready"
                        => ts[t].fut = "done" /\ ts[t].out = "sent"]_vars
=============================================================================
