------------------------------- MODULE Views -------------------------------
(* What comparing, ordering, hashing, formatting and deserializing views gives: always what it gives for
   the sequence that is shown, whatever shows it.

   Elements are numbered values of some kind; Rank says how a kind's values compare: those of equal rank
   are equal (without being the same), and a value without a rank is not even equal to itself.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == -1
Rank(kind, v) ==
  CASE kind = "u8" -> v                                 \* 0, 1, 128, 255
    [] kind = "i16" -> <<2, 0, 3, 1>>[v + 1]            \* 0, -300, 7, -1
    [] kind = "f64" -> <<0, 0, 1, None>>[v + 1]         \* -0.0, 0.0, 1.5, NaN
    [] kind = "key" -> v \div 2                         \* a type of its own, with two values for every rank
    [] OTHER -> v                                       \* zero-sized: all the same

Eq1(k, a, b) == Rank(k, a) # None /\ Rank(k, b) # None /\ Rank(k, a) = Rank(k, b)
Cmp1(k, a, b) == IF Rank(k, a) = None \/ Rank(k, b) = None THEN "none"
                 ELSE IF Rank(k, a) < Rank(k, b) THEN "lt" ELSE IF Rank(k, a) = Rank(k, b) THEN "eq" ELSE "gt"
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

Equal(k, s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Eq1(k, s[i], t[i])
Common(s, t) == 1..(IF Len(s) < Len(t) THEN Len(s) ELSE Len(t))
Compare(k, s, t) ==
  LET d == {i \in Common(s, t) : Cmp1(k, s[i], t[i]) # "eq"} IN
  IF d # {} THEN Cmp1(k, s[Min(d)], t[Min(d)])
  ELSE IF Len(s) < Len(t) THEN "lt" ELSE IF Len(s) = Len(t) THEN "eq" ELSE "gt"

-----------------------------------------------------------------------------
(* Formatting, as sequences of pieces: element v is <<"e", v>>, a literal text is itself. *)
RECURSIVE Join(_, _)
Join(xs, sep) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN <<xs[1]>> ELSE <<xs[1], sep>> \o Join(Tail(xs), sep)
Elems(s) == [i \in DOMAIN s |-> "e" \o ToString(s[i])]
Debug(s) == <<"[">> \o Join(Elems(s), ", ") \o <<"]">>
Pretty(s) == IF s = <<>> THEN <<"[]">>
             ELSE <<"[|    ">> \o Join(Elems(s), ",|    ") \o <<",|]">>       \* | is a new line

(* Text: characters are numbered; those of Escaped are escaped when shown with quotes. *)
Escaped == {0, 1, 2, 4}        \* tab, newline, quote, backslash; 3 is the other quote
Quoted(s) == <<"'">> \o [i \in DOMAIN s |-> IF s[i] \in Escaped THEN "x" \o ToString(s[i]) ELSE "c" \o ToString(s[i])] \o <<"'">>
Plain(s) == [i \in DOMAIN s |-> "c" \o ToString(s[i])]
Fill(n) == [i \in 1..n |-> "f"]
(* {:f<w.p} and the like: at most p characters, filled up to w. *)
Cut(s, p) == IF p >= 0 /\ p < Len(s) THEN SubSeq(s, 1, p) ELSE s
Padded(s, align, w, p) ==
  LET t == Cut(s, p)
      n == IF Len(t) < w THEN w - Len(t) ELSE 0
      left == CASE align = "left" -> 0 [] align = "right" -> n [] OTHER -> n \div 2
  IN Fill(left) \o Plain(t) \o Fill(n - left)
(* Texts order by their encoding, that is, by code point. *)

-----------------------------------------------------------------------------
(* Deserializing a byte string from what a format provides: its bytes at once (of which some may be gone
   afterwards), or one after the other, with an announcement of their number that nobody has to trust. *)
Deserialized(shape, s, fails) ==
  IF shape \in {"borrowed", "bytes", "buf"} THEN <<"ok", s>>
  ELSE IF shape = "seq" THEN (IF fails = 0 THEN <<"ok", s>> ELSE <<"err">>)
  ELSE <<"err">>

-----------------------------------------------------------------------------
(* Laws, checked for all small sequences. *)
Flip(r) == CASE r = "lt" -> "gt" [] r = "gt" -> "lt" [] OTHER -> r
Antisymmetric(k, s, t) == Compare(k, t, s) = Flip(Compare(k, s, t))
EqAgrees(k, s, t) == Equal(k, s, t) <=> (Compare(k, s, t) = "eq")
Transitive(k, s, t, u) == Compare(k, s, t) = "lt" /\ Compare(k, t, u) \in {"lt", "eq"} => Compare(k, s, u) = "lt"
=============================================================================
