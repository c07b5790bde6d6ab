------------------------------ MODULE MCViews ------------------------------
EXTENDS Views, Json
CONSTANTS MaxLen, Pads, BigPads, MaxText, Emit
VARIABLE q
Kinds == {"u8", "i16", "f64", "key"}
Seqs(n) == UNION {[1..m -> 0..3] : m \in 0..n}
Pad(p, s) == [i \in 1..p |-> 1] \o s    \* long sequences that begin alike
Texts == UNION {[1..m -> 0..7] : m \in 0..MaxText}

Pairs == [do : {"pair"}, k : Kinds, s : Seqs(MaxLen), t : Seqs(MaxLen)]
Long == [do : {"pair"}, k : {"u8"}, s : {Pad(p, <<x>>) : p \in BigPads, x \in 0..1}, t : {Pad(p, <<x>>) : p \in BigPads, x \in 0..1}]
  \cup [do : {"pair"}, k : {"u8"}, s : {Pad(p, x) : p \in Pads, x \in Seqs(1)}, t : {Pad(p, x) : p \in Pads, x \in Seqs(1)}]
Ones == [do : {"one"}, k : Kinds, s : Seqs(MaxLen), t : {<<>>}]
        \cup [do : {"one"}, k : {"u8"}, s : {Pad(p, x) : p \in Pads, x \in Seqs(1)}, t : {<<>>}]
TextPairs == [do : {"texts"}, k : {"str"}, s : Texts, t : {x \in Texts : Len(x) < MaxText}]
TextFmt == [do : {"show"}, k : {"left", "right", "center"}, s : Texts, t : {<<w, p>> : w \in {0, 2, 5}, p \in {-1, 0, 1, 9}}]
Serde == [do : {"de"}, k : {"borrowed", "bytes", "buf", "seq", "str", "unit", "u8", "map", "none", "some"},
          s : Seqs(2) \cup {Pad(p, <<2>>) : p \in Pads \cup BigPads}, t : {<<h, f>> : h \in {0, 1, 2, 3, 4}, f \in {0, 1}}]
\* (hints: none, exact, too small, too large, absurd; failing at the end)

MCInit == q \in Pairs \cup Long \cup Ones \cup TextPairs \cup TextFmt \cup Serde
MCSpec == MCInit /\ [][UNCHANGED q]_q
Answer == CASE q.do = "pair" -> <<Equal(q.k, q.s, q.t), Compare(q.k, q.s, q.t)>>
            [] q.do = "texts" -> <<Equal("str", q.s, q.t), Compare("str", q.s, q.t)>>
            [] q.do = "one" -> <<Debug(q.s), Pretty(q.s)>>
            [] q.do = "show" -> <<Quoted(q.s), Padded(q.s, q.k, q.t[1], q.t[2])>>
            [] OTHER -> Deserialized(q.k, q.s, q.t[2])
Tell == Emit => PrintT(ToJson(<<q, Answer>>))
Laws == q.do = "pair" => /\ Antisymmetric(q.k, q.s, q.t) /\ EqAgrees(q.k, q.s, q.t)
                         /\ \A x \in 0..3 : Transitive(q.k, q.s, q.t, <<x>>) /\ Transitive(q.k, <<x>>, q.s, q.t)
=============================================================================
