----------------------------- MODULE TraceBytes -----------------------------
(* Histories recorded from the real code (one JSON object per line: command, result, and everything
   the driver can see afterwards), checked step by step against the actions of Bytes. *)
EXTENDS Bytes, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<sl, st, op, l>>

Byte(s, i) == (i * i * 3 + i * 5 + s * 53 + 1 + (i \div 256) * 7) % 256
Content(v) == IF v.k = "none" THEN <<>> ELSE <<v.len>> \o [k \in 1..v.len |-> Byte(v.src, v.off + k - 1)]

ResOf(o) == IF o.cmd[1] = "read" /\ o.res[1] = "ok"
            THEN <<"ok", o.res[2], [k \in 1..o.res[2] |-> Byte(o.res[3][1], o.res[3][2] + k - 1)]>>
            ELSE o.res
\* (Of an empty box there is no block whose fate could be seen.)
SeenRc(t, x) == IF t[x].ctor \in Counted
                THEN IF t[x].len = 0 THEN {t[x].rc, -1} ELSE {t[x].rc}
                ELSE IF t[x].rc = 0 THEN {0, -1} ELSE IF t[x].ctor = "sarct" THEN {-2} ELSE {-1}

Step(c) ==
    CASE c[1] = "mk" -> Make(c[2], c[3], c[4], c[5], c[6])
      [] c[1] = "clone" -> Clone(c[2], c[3])
      [] c[1] = "nclone" -> NoallocClone(c[2], c[3])
      [] c[1] = "upgrade" -> Upgrade(c[2])
      [] c[1] = "nupgrade" -> NoallocUpgrade(c[2])
      [] c[1] = "pred" -> Predict(c[2])
      [] c[1] = "shrink" -> Shrink(c[2], c[3], c[4], c[5], c[6])
      [] c[1] = "subs" -> Subslice(c[2], c[3], c[4], c[5], c[6])
      [] c[1] = "split" -> Split(c[2], c[3], c[4])
      [] c[1] = "read" -> Read(c[2], c[3])
      [] c[1] = "toarc" -> ToArc(c[2])
      [] c[1] = "tosarc" -> ToSarc(c[2])
      [] c[1] = "drop" -> Drop(c[2])
      [] c[1] = "move" -> Move(c[2], c[3])
      [] c[1] = "endborrow" -> EndBorrow

Reset == /\ Trace[l].cmd[1] = "reset"
         /\ sl' = [i \in Slots |-> None] /\ st' = [o \in Stors |-> Dead]
         /\ op' = [cmd |-> <<"reset">>, res |-> <<"ok">>]

TraceInit == Init /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       \/ Reset
       \/ /\ e.cmd[1] # "reset"
          /\ Step(e.cmd)
          /\ ResOf(op') = e.res
          /\ \A i \in Slots : Content(sl'[i]) = e.sl[i]
          /\ \A x \in 1..Len(e.st) : e.st[x] \in SeenRc(st', x)
          /\ e.aerr = 0
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
