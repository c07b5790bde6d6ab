------------------------------- MODULE MCAbi -------------------------------
(* Generates universes: programs of declarations, types, functions and constants, step by step, and
   prints for each what the ABI of Abi.tla says about it. A universe is determined by its seed (the
   state of a small generator) or is one of the fixed families below. The behaviours of this
   specification are deterministic; the set of initial states is what a run explores. *)
EXTENDS Abi, Json

CONSTANTS Seeds,      \* seeds of random universes
          Families,   \* names of fixed families
          WithForeign,  \* also describe the foreign declarations
          NDecls, NRoots, NFns, NConsts,
          WithVecs,   \* BOOLEAN: print vectors
          Pairs       \* number of leaves mutated in pairs

VARIABLES id, h, D, roots, fns, consts, k, phase
vars == <<id, h, D, roots, fns, consts, k, phase>>

-----------------------------------------------------------------------------
Rnd(x) == (x * 75 + 74) % 65537
Pick(x, s) == s[(x % Len(s)) + 1]
Coin(x, n) == x % n = 0

Prims == <<"bool", "u8", "i8", "u16", "i16", "u32", "i32", "f32", "u64", "i64", "f64", "usize", "isize">>
Ints == <<"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64">>
Signed(n) == n \in {"i8", "i16", "i32", "i64", "isize", "c_int"}

ValDecls(DD) == SelectSeq([i \in 1..Len(DD) |-> i], LAMBDA i : DD[i].k # "opaque")
Opaques(DD) == SelectSeq([i \in 1..Len(DD) |-> i], LAMBDA i : DD[i].k = "opaque")

LeafK == <<"p", "p", "p", "p", "d", "d", "ptr", "cp">>
DeepK == <<"p", "p", "d", "d", "d", "d", "ptr", "ptr", "opt", "opt", "opt", "fn", "arr", "tup", "tag",
           "tag", "sl", "cp", "str", "clo">>
PtrK == <<"ptr", "mptr", "ref", "mref", "nn", "nnr", "nnm", "nno", "box", "out">>
NicheK == <<"ref", "ref", "mref", "nn", "nno", "box", "out", "fn", "sl", "str", "cp", "td">>
MaxSize == 72

RECURSIVE GenV(_, _, _), GenS(_, _, _, _), GenN(_, _, _), GenPointee(_, _, _)
GenV(DD, x, d) ==
  LET h1 == Rnd(x) h2 == Rnd(h1) h3 == Rnd(h2)
      kind == Pick(h1, IF d = 0 THEN LeafK ELSE DeepK)
      prim == <<P(Pick(h2, Prims)), h2>>
      vd == ValDecls(DD)
      res ==
        CASE kind = "p" -> prim
          [] kind = "d" ->
               IF vd = <<>> THEN prim
               ELSE LET i == Pick(h2, vd)
                        as == GenS(DD, h3, 0, DD[i].params) IN <<Dcl(i, as[1]), as[2]>>
          [] kind = "ptr" -> LET p == GenPointee(DD, h3, d) IN <<<<Pick(h2, PtrK), p[1]>>, p[2]>>
          [] kind = "opt" -> LET n == GenN(DD, h2, d) IN <<Opt(n[1]), n[2]>>
          [] kind = "fn" -> LET as == GenS(DD, h3, 0, h2 % 4) r == GenV(DD, as[2], 0) IN
                            <<Fn(as[1], IF Coin(h2 \div 4, 3) THEN Unit ELSE r[1]), r[2]>>
          [] kind = "arr" -> LET e == GenV(DD, h3, d - 1) IN
                             <<Arr(e[1], Pick(h2, <<1, 2, 3, 4, 5, 7, 8>>)), e[2]>>
          [] kind = "tup" -> LET ts == GenS(DD, h3, d - 1, 1 + (h2 % 5)) IN <<Tup(ts[1]), ts[2]>>
          [] kind = "tag" -> LET e == GenV(DD, h2, d - 1) IN <<Tag(e[1]), e[2]>>
          [] kind = "sl" -> LET e == GenV(DD, h3, d - 1) IN
                            <<Sl(Pick(h2, <<"ref", "mut", "box", "raw", "vec">>), e[1]), e[2]>>
          [] kind = "cp" -> <<Cp(Pick(h2, <<"ref", "box", "raw">>)), h2>>
          [] kind = "str" -> <<Str(Pick(h2, <<"ref", "box", "string">>)), h2>>
          [] kind = "clo" -> LET as == GenS(DD, h3, 0, h2 % 3) r == GenV(DD, as[2], 0) IN
                             <<Clo(Pick(h2, <<"box", "arc", "ref">>), as[1],
                                   IF Coin(h2 \div 4, 3) THEN Unit ELSE r[1]), r[2]>>
  IN IF Size(DD, res[1]) > MaxSize THEN <<P("u32"), res[2]>> ELSE res

GenS(DD, x, d, n) ==
  IF n = 0 THEN <<<<>>, x>>
  ELSE LET t == GenV(DD, x, d) r == GenS(DD, t[2], d, n - 1) IN <<<<t[1]>> \o r[1], r[2]>>

GenPointee(DD, x, d) ==
  LET h1 == Rnd(x) h2 == Rnd(h1) os == Opaques(DD) IN
  IF os # <<>> /\ Coin(h1, 4) THEN <<Dcl(Pick(h2, os), <<>>), h2>>
  ELSE IF Coin(h1, 5) THEN <<P("u64"), h2>>
  ELSE GenV(DD, h2, IF d = 0 THEN 0 ELSE d - 1)

GenN(DD, x, d) ==
  LET h1 == Rnd(x) h2 == Rnd(h1) h3 == Rnd(h2)
      kind == Pick(h1, NicheK)
      td == SelectSeq(ValDecls(DD), LAMBDA i : DD[i].params = 0 /\ Niche(DD, Dcl(i, <<>>)))
  IN CASE kind \in PtrKinds -> LET p == GenPointee(DD, h2, d) IN <<<<kind, p[1]>>, p[2]>>
       [] kind = "fn" -> LET as == GenS(DD, h3, 0, h2 % 3) r == GenV(DD, as[2], 0) IN
                         <<Fn(as[1], IF Coin(h2 \div 4, 2) THEN Unit ELSE r[1]), r[2]>>
       [] kind = "sl" -> LET e == GenV(DD, h3, IF d = 0 THEN 0 ELSE d - 1) IN
                         <<Sl(Pick(h2, <<"ref", "mut", "box", "raw", "vec">>), e[1]), e[2]>>
       [] kind = "str" -> <<Str(Pick(h2, <<"ref", "box", "string">>)), h2>>
       [] kind = "cp" -> <<Cp(Pick(h2, <<"ref", "box", "raw">>)), h2>>
       [] OTHER -> IF td = <<>> THEN <<Ref(P("u16")), h2>> ELSE <<Dcl(Pick(h2, td), <<>>), h2>>

-----------------------------------------------------------------------------
(* Enum discriminants: <<form, operand>> per variant and the bytes that result. *)
Zero(w) == Fill(w, 0)
MaxOf(r) == [i \in 1..PrimSize[r] |-> IF i = PrimSize[r] /\ Signed(r) THEN 127 ELSE 255]
MinOf(r) == Not(MaxOf(r))
Shl(w, n) == [i \in 1..w |-> IF i = (n \div 8) + 1 THEN 2 ^ (n % 8) ELSE 0]
DiscBytes(r, form, prev) ==
  LET w == PrimSize[r] IN
  CASE form[1] = "imp" -> IF prev = <<>> THEN Zero(w) ELSE Inc(prev)
    [] form[1] = "lit" -> [Zero(w) EXCEPT ![1] = form[2]]
    [] form[1] = "not" -> Not([Zero(w) EXCEPT ![1] = form[2]])
    [] form[1] = "shl" -> Shl(w, form[2])
    [] form[1] = "max" -> MaxOf(r)
    [] form[1] = "min" -> MinOf(r)
FormOk(r, form, prev, have) ==
  /\ form[1] = "imp" /\ prev # <<>> => prev # MaxOf(r)
  /\ form[1] = "lit" /\ Signed(r) /\ PrimSize[r] = 1 => form[2] < 128
  \* `!0` of an unsigned type is its maximum, `!5` of a signed one is -6
  /\ form[1] = "not" /\ Signed(r) /\ PrimSize[r] = 1 => form[2] < 128
  /\ form[1] = "shl" => form[2] < 8 * PrimSize[r] - (IF Signed(r) THEN 1 ELSE 0)
  /\ ~\E i \in 1..Len(have) : have[i] = DiscBytes(r, form, prev)
GenForm(x, r) ==
  LET h2 == Rnd(x) IN
  CASE Pick(x, <<1, 1, 1, 2, 2, 3, 4, 5, 6>>) = 1 -> <<"imp", 0>>
    [] Pick(x, <<1, 1, 1, 2, 2, 3, 4, 5, 6>>) = 2 -> <<"lit", h2 % 256>>
    [] Pick(x, <<1, 1, 1, 2, 2, 3, 4, 5, 6>>) = 3 -> <<"not", h2 % 100>>
    [] Pick(x, <<1, 1, 1, 2, 2, 3, 4, 5, 6>>) = 4 -> <<"shl", h2 % (8 * PrimSize[r])>>
    [] Pick(x, <<1, 1, 1, 2, 2, 3, 4, 5, 6>>) = 5 -> <<"max", 0>>
    [] OTHER -> <<"min", 0>>
RECURSIVE GenVariants(_, _, _, _, _, _)
GenVariants(x, r, n, prev, forms, discs) ==
  IF n = 0 THEN <<forms, discs, x>>
  ELSE LET h1 == Rnd(x) f == GenForm(h1, r) h2 == Rnd(h1) IN
       IF FormOk(r, f, prev, discs)
       THEN LET b == DiscBytes(r, f, prev) IN
            GenVariants(h2, r, n - 1, b, Append(forms, f), Append(discs, b))
       ELSE GenVariants(h2, r, n - 1, prev, forms, discs)

MkEnum(r, forms, discs) ==
  [k |-> "enum", params |-> 0, repr |-> r, forms |-> forms, discs |-> discs]
Enum(r, forms) ==   \* a given list of forms
  LET RECURSIVE E(_, _, _)
      E(i, prev, acc) ==
        IF i > Len(forms) THEN acc
        ELSE LET b == TLCEval(DiscBytes(r, forms[i], prev)) IN E(i + 1, b, TLCEval(Append(acc, b)))
  IN MkEnum(r, forms, E(1, <<>>, <<>>))

GenFields(DD, x, d, n) ==
  LET g == GenS(DD, x, d, n)
      h1 == Rnd(g[2])
      pos == h1 % (Len(g[1]) + 1)
  IN IF Coin(h1 \div 16, 3)
     THEN <<SubSeq(g[1], 1, pos) \o <<Mark>> \o SubSeq(g[1], pos + 1, Len(g[1])), h1>>
     ELSE <<g[1], h1>>

DeclK == <<"struct", "struct", "struct", "enum", "enum", "gen", "trans", "trans", "opaque">>
GenDecl(DD, x) ==
  LET h1 == Rnd(x) kind == Pick(h1, DeclK) h2 == Rnd(h1) h3 == Rnd(h2) IN
  CASE kind = "struct" ->
         LET f == GenFields(DD, h3, 2, 1 + (h2 % 5)) IN
         <<[k |-> "struct", params |-> 0, named |-> ~Coin(h2 \div 8, 4), fields |-> f[1]], f[2]>>
    [] kind = "gen" ->
         \* type parameters appear as such, behind a pointer, in an array and as a marker
         LET f == GenFields(DD, h3, 1, h2 % 3)
             np == 1 + ((h2 \div 4) % 2)
             own == <<<<Var(1), Raw(Var(np))>>, <<Arr(Var(1), 3), Var(np)>>, <<Var(np), Ref(Var(1))>>,
                      <<Tup(<<Var(1), P("u8"), Var(np)>>)>>, <<Sl("ref", Var(1)), Opt(Ref(Var(np)))>>,
                      <<Tag(Var(1)), Var(np)>>>>
         IN <<[k |-> "struct", params |-> np, named |-> TRUE,
               fields |-> Pick(h3, own) \o f[1]], f[2]>>
    [] kind = "trans" ->
         LET t == IF Coin(h2, 2) THEN GenN(DD, h3, 1) ELSE GenV(DD, h3, 2)
             m == Pick(h2 \div 4, <<<<>>, <<>>, <<Mark>>>>)
             m2 == Pick(h2 \div 16, <<<<>>, <<>>, <<Mark>>>>)
         IN <<[k |-> "trans", params |-> 0, named |-> Coin(h2 \div 64, 2), fields |-> m \o <<t[1]>> \o m2],
              t[2]>>
    [] kind = "opaque" -> <<[k |-> "opaque", params |-> 0, align |-> Pick(h2, <<1, 2, 4, 8>>)], h2>>
    [] OTHER ->
         LET r == Pick(h2, Ints \o <<"c_int">>)
             g == GenVariants(h3, r, 1 + ((h2 \div 16) % 7), <<>>, <<>>, <<>>)
         IN IF g[1] = <<>> THEN <<Enum(r, <<<<"lit", 3>>>>), g[3]>>
            ELSE <<MkEnum(r, g[1], g[2]), g[3]>>

GenConst(x) ==
  LET h1 == Rnd(x) p == Pick(h1, Ints \o <<"bool", "f32", "f64", "usize", "isize">>) h2 == Rnd(h1)
      w == PrimSize[p] IN
  <<[ty |-> p,
     bytes |-> CASE p = "bool" -> <<h2 % 2>>
                 [] p \in {"f32", "f64"} -> <<h2 % 256, (h2 \div 256) % 8>>   \* numerator, log2 of denominator
                 [] OTHER -> Pick(h2, <<MaxOf(p), MinOf(p), Zero(w), [i \in 1..w |-> Noise(i, h2)],
                                        Dec(Zero(w))>>)],
    h2>>

-----------------------------------------------------------------------------
(* Fixed families. *)
DCat ==
  << [k |-> "opaque", params |-> 0, align |-> 8],
     Enum("u8", <<<<"lit", 3>>, <<"imp", 0>>, <<"not", 5>>>>),
     [k |-> "struct", params |-> 0, named |-> TRUE, fields |-> <<P("u8"), P("u64"), Dcl(2, <<>>), P("bool")>>],
     [k |-> "trans", params |-> 0, named |-> FALSE, fields |-> <<Mark, Ref(P("u32"))>>],
     [k |-> "struct", params |-> 1, named |-> TRUE, fields |-> <<P("u8"), Var(1), Mark, Arr(Var(1), 2)>>],
     Enum("i32", <<<<"min", 0>>, <<"imp", 0>>, <<"lit", 7>>, <<"max", 0>>>>),
     [k |-> "struct", params |-> 0, named |-> FALSE, fields |-> <<Mark, P("u16"), P("f64"), P("i8")>>],
     [k |-> "trans", params |-> 0, named |-> TRUE, fields |-> <<Dcl(2, <<>>), Mark>>],
     [k |-> "trans", params |-> 0, named |-> FALSE, fields |-> <<Fn(<<P("u8")>>, Unit)>>],
     [k |-> "opaque", params |-> 0, align |-> 2] >>
Op == Dcl(1, <<>>)  E8 == Dcl(2, <<>>)  S3 == Dcl(3, <<>>)  E32 == Dcl(6, <<>>)
PrimTs == [i \in 1..Len(Prims) |-> P(Prims[i])]
Pointees == <<P("u8"), P("u16"), P("f64"), Op, S3, E32, Dcl(10, <<>>), Dcl(5, <<P("u16")>>), Fn(<<>>, Unit)>>
Cross(f(_, _), s, t) == [i \in 1..Len(s) * Len(t) |-> f(s[((i - 1) \div Len(t)) + 1], t[((i - 1) % Len(t)) + 1])]
MapS(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
PtrTs == Cross(LAMBDA kk, t : <<kk, t>>, PtrK, Pointees)
OptTs == MapS(LAMBDA t : Opt(t), SelectSeq(PtrTs, LAMBDA t : t[1] \notin {"ptr", "mptr"}))
SlK == <<"ref", "mut", "box", "raw", "vec">>
SlTs == Cross(LAMBDA kk, t : Sl(kk, t), SlK, <<P("u8"), P("u32"), S3, E8, Ref(P("u8"))>>)
TextTs == MapS(LAMBDA kk : Cp(kk), <<"ref", "box", "raw">>) \o MapS(LAMBDA kk : Str(kk), <<"ref", "box", "string">>)
ArrN == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27,
          28, 29, 30, 31, 32, 40, 48, 50, 60, 64, 70, 75, 80, 90, 96, 100, 125, 128, 192, 200, 250, 256,
          300, 400, 500, 512, 600, 700, 750, 800, 900, 1000, 1024>>
ArrTs == MapS(LAMBDA n : Arr(P("bool"), n), ArrN)
ArrTs2 == MapS(LAMBDA n : Arr(E8, n), <<1, 2, 3>>) \o MapS(LAMBDA n : Arr(S3, n), <<1, 2>>)
          \o MapS(LAMBDA n : Arr(Arr(P("bool"), n), 2), <<1, 2, 3>>) \o <<Arr(Ref(P("u16")), 2), Arr(Opt(Fn(<<>>, Unit)), 2)>>
TagTs == MapS(LAMBDA t : Tag(t), PrimTs \o <<E8, E32, S3, Ref(P("u64")), Opt(Ref(P("u8"))), Tag(P("bool")),
              Tag(P("u16")), Tup(<<P("bool"), P("u32")>>), Arr(P("bool"), 3), Dcl(8, <<>>), Fn(<<>>, Unit),
              Sl("ref", P("u16")), Cp("ref")>>)
TupEl == <<P("bool"), E8, P("u32"), Ref(P("u16")), P("u8"), Tag(P("bool"))>>
TupTs == MapS(LAMBDA n : Tup(SubSeq(TupEl, 1, n)), <<1, 2, 3, 4, 5, 6>>)
         \o MapS(LAMBDA n : Tup([i \in 1..n |-> TupEl[7 - i]]), <<1, 2, 3, 4, 5, 6>>)
FnAs(n) == [i \in 1..n |-> Pick(i, <<P("u8"), Ref(P("u8")), E8, S3, P("f64")>>)]
FnTs == MapS(LAMBDA n : Fn(FnAs(n), IF n % 2 = 0 THEN Unit ELSE P("u8")), <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9>>)
CloTs == Cross(LAMBDA kk, n : Clo(kk, FnAs(n), IF n % 2 = 0 THEN Unit ELSE P("u8")), <<"box", "arc", "ref">>,
               <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9>>)
DeclTs == <<E8, S3, Dcl(4, <<>>), Dcl(5, <<P("bool")>>), Dcl(5, <<E32>>), Dcl(5, <<Dcl(5, <<P("u16")>>)>>), E32,
            Dcl(7, <<>>), Dcl(8, <<>>), Dcl(9, <<>>), Opt(Dcl(4, <<>>)), Opt(Dcl(9, <<>>))>>
OptMore == MapS(LAMBDA t : Opt(t), TextTs \o SlTs \o FnTs \o SelectSeq(CloTs, LAMBDA t : t[2] = "box"))

AllReprs == Ints \o <<"c_int">>
EnumsOf(r) ==
  << Enum(r, <<<<"imp", 0>>>>),
     Enum(r, <<<<"imp", 0>>, <<"imp", 0>>, <<"imp", 0>>>>),
     Enum(r, <<<<"lit", 1>>, <<"lit", 2>>, <<"lit", 4>>, <<"imp", 0>>, <<"lit", 100>>>>),
     Enum(r, <<<<"min", 0>>, <<"imp", 0>>, <<"max", 0>>>>),
     Enum(r, <<<<"not", 0>>, <<"not", 1>>, <<"shl", 8 * PrimSize[r] - 2>>, <<"imp", 0>>>>),
     Enum(r, <<<<"lit", 127>>, <<"lit", 0>>, <<"imp", 0>>>>) >>
Flat(ss) == LET RECURSIVE C(_, _)
                C(i, acc) == IF i > Len(ss) THEN acc ELSE C(i + 1, acc \o ss[i])
            IN C(1, <<>>)
DEnum == Flat(MapS(LAMBDA r : EnumsOf(r), AllReprs)) \o
         << Enum("u8", [i \in 1..256 |-> <<"imp", 0>>]), Enum("i8", [i \in 1..100 |-> IF i = 1 THEN <<"min", 0>> ELSE <<"imp", 0>>]),
            Enum("u16", [i \in 1..300 |-> <<"imp", 0>>]) >>

(* Every struct of one to three fields over the size classes: layout only. *)
Cls == <<P("u8"), P("u16"), P("u32"), P("u64"), Mark>>
DStruct ==
  LET one == [i \in 1..5 |-> <<Cls[i]>>]
      two == Cross(LAMBDA a, b : <<a, b>>, Cls, Cls)
      three == Cross(LAMBDA a, b : a \o <<b>>, two, Cls)
      ok == SelectSeq(one \o two \o three, LAMBDA f : \E i \in 1..Len(f) : f[i] # Mark)
  IN MapS(LAMBDA f : [k |-> "struct", params |-> 0, named |-> TRUE, fields |-> f], ok)

(* Bytes, virtual pointers, and what is built from them. *)
DOwn == DCat \o <<[k |-> "opaque", params |-> 0, align |-> 1, ext |-> "Erased"]>>   \* what VirtualPtr points to
Erd == Dcl(Len(DOwn), <<>>)
OwnTs == <<Byts, Opt(Byts), Tag(Byts), Tup(<<P("u8"), Byts>>), Arr(Opt(Byts), 2)>>
         \o MapS(LAMBDA n : Vp(n, Erd), <<1, 2, 3>>) \o MapS(LAMBDA n : Opt(Vp(n, Erd)), <<1, 2, 3>>)
         \o <<Tag(Vp(2, Erd)), Tup(<<P("bool"), Opt(Vp(1, Erd)), P("u16")>>)>>
(* The types of the stabby crate. *)
StPointees == <<P("u8"), P("u16"), P("f64"), P("bool"), Ref(P("u32")), P("usize")>>
StPtr == Cross(LAMBDA kk, t : <<kk, t>>, <<"sbox", "sarc", "sweak">>, StPointees)
StSl == Cross(LAMBDA kk, t : SSl(kk, t), <<"box", "arc", "weak">>, StPointees)
StOwn == MapS(LAMBDA kk : SStr(kk), <<"box", "arc", "weak">>) \o MapS(LAMBDA kk : SDyn(kk), <<"ref", "box">>)
StLike == MapS(LAMBDA t : SLike(t), <<P("u8"), P("bool"), P("u64"), Ref(P("u16")), SArc(P("u32"))>>)
StStb == MapS(LAMBDA t : Stb(t), <<P("u8"), P("u16"), P("u32"), P("u64"), P("bool"), Ord, SRef(P("u32")), SRef(P("u8")),
                                   NZ("u8"), NZ("u16"), NZ("u32"), NZ("u64"), NZ("i8"), NZ("i32"), NZ("usize")>>)
StabbyTs == StPtr \o MapS(LAMBDA t : Opt(t), StPtr) \o StSl \o StOwn \o StLike \o StStb
            \o MapS(LAMBDA t : Opt(t), SelectSeq(StStb, LAMBDA t : Niche(DCat, t)))
            \o <<Tag(SArc(P("u16"))), Tup(<<P("bool"), SStr("arc"), P("u8")>>), Tag(SSl("box", P("u32"))),
                  Tup(<<Stb(P("bool")), Stb(P("u32"))>>), Arr(Opt(SWeak(P("u64"))), 2)>>

Fam(n) ==
  CASE n = "prims" -> [D |-> DCat, roots |-> PrimTs \o TextTs \o DeclTs \o SlTs]
    [] n = "ptrs" -> [D |-> DCat, roots |-> PtrTs]
    [] n = "opts" -> [D |-> DCat, roots |-> OptTs]
    [] n = "optmore" -> [D |-> DCat, roots |-> OptMore]
    [] n = "arrs" -> [D |-> DCat, roots |-> ArrTs2 \o SubSeq(ArrTs, 1, 12)]
    [] n = "bigarrs" -> [D |-> DCat, roots |-> SubSeq(ArrTs, 13, Len(ArrTs))]
    [] n = "tags" -> [D |-> DCat, roots |-> TagTs]
    [] n = "own" -> [D |-> DOwn, roots |-> OwnTs]
    [] n = "stabby" -> [D |-> DCat, roots |-> StabbyTs]
    [] n = "tups" -> [D |-> DCat, roots |-> TupTs]
    [] n = "fns" -> [D |-> DCat, roots |-> FnTs \o CloTs]
    [] n = "enums" -> [D |-> DEnum, roots |-> MapS(LAMBDA i : Dcl(i, <<>>), [i \in 1..Len(DEnum) |-> i])]
    [] n = "structs" -> [D |-> DStruct, roots |-> MapS(LAMBDA i : Dcl(i, <<>>), [i \in 1..Len(DStruct) |-> i])]

-----------------------------------------------------------------------------
Init ==
  \/ \E s \in Seeds : /\ id = ToString(s) /\ h = s /\ D = <<>> /\ roots = <<>> /\ fns = <<>>
                      /\ consts = <<>> /\ k = 0 /\ phase = "decls"
  \/ \E n \in Families : LET f == Fam(n) IN
                      /\ id = n /\ h = 1 /\ D = f.D /\ roots = f.roots /\ fns = <<>> /\ consts = <<>>
                      /\ k = 0 /\ phase = "emit"

AddDecl ==
  /\ phase = "decls" /\ Len(D) < NDecls
  /\ LET d == GenDecl(D, h) IN D' = Append(D, d[1]) /\ h' = d[2]
  /\ UNCHANGED <<id, roots, fns, consts, k, phase>>
EndDecls ==
  /\ phase = "decls" /\ Len(D) = NDecls
  /\ phase' = "roots"
  \* every declaration is looked at, generic ones at generated arguments
  /\ LET vd == ValDecls(D)
         R[i \in 0..Len(vd)] ==
           IF i = 0 THEN <<<<>>, h>>
           ELSE LET as == GenS(D, R[i - 1][2], 0, D[vd[i]].params) IN
                <<Append(R[i - 1][1], Dcl(vd[i], as[1])), as[2]>>
     IN roots' = R[Len(vd)][1] /\ h' = R[Len(vd)][2]
  /\ UNCHANGED <<id, D, fns, consts, k>>
AddRoot ==
  /\ phase = "roots" /\ k < NRoots
  /\ LET t == GenV(D, h, 3) IN
     /\ roots' = IF \E i \in 1..Len(roots) : roots[i] = t[1] THEN roots ELSE Append(roots, t[1])
     /\ h' = t[2]
  /\ k' = k + 1
  /\ UNCHANGED <<id, D, fns, consts, phase>>
EndRoots ==
  /\ phase = "roots" /\ k = NRoots
  /\ phase' = "fns" /\ k' = 0
  /\ UNCHANGED <<id, h, D, roots, fns, consts>>
(* Functions take and return types already looked at, so that their vectors are there. *)
AddFn ==
  /\ phase = "fns" /\ Len(fns) < NFns
  /\ LET h1 == Rnd(h)
         n == h1 % 7
         A[i \in 0..n] == IF i = 0 THEN <<<<>>, h1>>
                          ELSE LET x == Rnd(A[i - 1][2]) IN
                               <<Append(A[i - 1][1], (x % Len(roots)) + 1), x>>
         h2 == Rnd(A[n][2])
         kinds == [i \in 1..n |-> LET kd == Pick(A[i][2] \div 8, PatKinds) IN
                     \* names bound twice are an error in Rust
                     IF (kd = "raw" /\ i # n) \/ (kd = "next" /\ i # 1) \/ (kd = "prev" /\ i = 3) THEN "plain" ELSE kd]
     IN /\ fns' = Append(fns, [args |-> A[n][1], params |-> [i \in 1..n |-> <<kinds[i], Binds(kinds[i], i - 1), ParamName(kinds[i], i - 1)>>],
                               ret |-> IF Coin(h2, 6) THEN 0 ELSE (h2 % Len(roots)) + 1])
        /\ h' = h2
  /\ UNCHANGED <<id, D, roots, consts, k, phase>>
AddConst ==
  /\ phase = "fns" /\ Len(fns) = NFns /\ Len(consts) < NConsts
  /\ LET c == GenConst(h) IN consts' = Append(consts, c[1]) /\ h' = c[2]
  /\ UNCHANGED <<id, D, roots, fns, k, phase>>
EndFns ==
  /\ phase = "fns" /\ Len(fns) = NFns /\ Len(consts) = NConsts
  /\ phase' = "emit" /\ k' = 0
  /\ UNCHANGED <<id, h, D, roots, fns, consts>>

(* What the ABI says about the k-th type. *)
Verdict(T, b) == LET v == Valid(D, T, b, 0) IN
                 <<b, IF v THEN 1 ELSE 0, IF v THEN Cover(D, T, b, 0) ELSE {}>>
About(T) ==
  [type |-> T, size |-> Size(D, T), align |-> Align(D, T), offsets |-> Offsets(D, T),
   all |-> IF /\ WithVecs /\ Size(D, T) <= 2
                /\ \E i \in 1..Len(Leaves(D, T, 0)) : Leaves(D, T, 0)[i][3] # <<"any">>
             THEN <<AllValid(D, T)>> ELSE <<>>,
   bases |-> <<Verdict(T, Base(D, T, k)), Verdict(T, Base(D, T, k + 5)), Verdict(T, NoneBase(D, T, k + 3))>>,
   vecs |-> IF ~WithVecs THEN {}
            ELSE IF Size(D, T) > 128 THEN {Verdict(T, b) : b \in {Base(D, T, k), Set1(Base(D, T, k), Size(D, T), 2),
                                             Set1(Base(D, T, k), 1, 2), Set1(Base(D, T, k), Size(D, T) \div 2, 255)}}
            ELSE {Verdict(T, b) : b \in Vectors(D, T, k, Pairs)}]
EmitHead ==
  /\ phase = "emit" /\ k = 0
  /\ PrintT(ToJson(<<"head", id, D, fns, consts, Len(roots)>>))
  /\ k' = 1
  /\ UNCHANGED <<id, h, D, roots, fns, consts, phase>>
(* What foreign declarations have to say about everything the roots mention. *)
AboutForeign(f) ==
  CASE f[1] = "ca" -> [foreign |-> f, size |-> Size(D, f[2]), align |-> Align(D, f[2]), members |-> Members(D, f[2])]
    [] f[1] = "ce" -> [foreign |-> f, size |-> Size(D, Dcl(f[2], <<>>)), align |-> Align(D, Dcl(f[2], <<>>)), members |-> <<>>]
    [] OTHER -> [foreign |-> f, size |-> 0, align |-> 0, members |-> <<>>]
EmitForeign ==
  /\ phase = "emit" /\ k = Len(roots) + 1 /\ WithForeign
  /\ LET RECURSIVE M(_, _)
         M(i, acc) == IF i > Len(roots) THEN acc
                      ELSE M(i + 1, TLCEval(Mentions(D, Foreign(D, roots[i]), acc)))
         RECURSIVE O(_, _)   \* declared types need not be roots to be exported
         O(i, acc) == IF i > Len(D) THEN acc
                      ELSE O(i + 1, IF D[i].params > 0 THEN acc
                                    ELSE TLCEval(Mentions(D, Foreign(D, Dcl(i, <<>>)), acc)))
         all == TLCEval(O(1, TLCEval(M(1, <<>>))))
     IN /\ PrintT(ToJson(<<"foreign", id, [i \in 1..Len(all) |-> AboutForeign(all[i])]>>))
        /\ PrintT(ToJson(<<"declared", id, [i \in 1..Len(D) |->
                            IF D[i].params > 0 THEN <<>> ELSE Foreign(D, Dcl(i, <<>>))]>>))
        /\ PrintT(ToJson(<<"forms", id, [i \in 1..Len(roots) |-> Foreign(D, roots[i])]>>))
  /\ k' = k + 1
  /\ UNCHANGED <<id, h, D, roots, fns, consts, phase>>
EmitType ==
  /\ phase = "emit" /\ k \in 1..Len(roots)
  /\ PrintT(ToJson(<<"type", id, k, About(roots[k])>>))
  /\ k' = k + 1
  /\ UNCHANGED <<id, h, D, roots, fns, consts, phase>>

Next == AddDecl \/ EndDecls \/ AddRoot \/ EndRoots \/ AddFn \/ AddConst \/ EndFns \/ EmitHead \/ EmitType \/ EmitForeign
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Checked in every state of every universe. *)
Sound ==
  (phase = "emit" /\ k \in 1..Len(roots)) =>
     LET T == roots[k] IN LayoutSound(D, T) /\ BaseSound(D, T, k)
(* Wrapping does not disturb: a transparent type, a one-tuple and a one-array lie like their content. *)
Wrapping ==
  (phase = "emit" /\ k \in 1..Len(roots)) =>
     LET T == roots[k] IN
     /\ Lay(D, Tup(<<T>>)) = Lay(D, T)
     /\ Lay(D, Arr(T, 1)) = Lay(D, T)
     /\ (Niche(D, T) => Lay(D, Opt(T)) = Lay(D, T))
(* No two parameters of a function have the same name. *)
ParamsSound ==
  phase = "fns" => \A f \in 1..Len(fns) : LET ps == fns[f].params IN
     \A i \in 1..Len(ps), j \in 1..Len(ps) : i # j => ps[i][3] # ps[j][3]
(* What is mentioned is described before, and the members of an aggregate tell its size. *)
ForeignSound ==
  (phase = "emit" /\ k \in 1..Len(roots) /\ WithForeign) =>
     LET T == roots[k]
         ms == TLCEval(Mentions(D, Foreign(D, T), <<>>)) IN
     /\ \A i \in 1..Len(ms) : \A j \in 1..Len(ms) : i # j => ms[i] # ms[j]
     /\ \A i \in 1..Len(ms) : ms[i][1] = "ca" =>
          LET mem == Members(D, ms[i][2])
              RECURSIVE Direct(_)
              Direct(f) == IF f[1] = "cn" THEN Direct(f[2]) ELSE f
          IN \A j \in 1..Len(mem) : LET f == Direct(mem[j][2]) IN
               f[1] \in {"ca", "ce"} => \E n \in 1..i - 1 : ms[n] = f
(* A declared discriminant occurs once, and implicit ones follow their predecessor. *)
EnumsSound ==
  (phase = "emit" /\ k = 0) => \A i \in 1..Len(D) : D[i].k = "enum" =>
     /\ \A a \in 1..Len(D[i].discs), b \in 1..Len(D[i].discs) : a # b => D[i].discs[a] # D[i].discs[b]
     /\ \A a \in 1..Len(D[i].discs) : Len(D[i].discs[a]) = PrimSize[D[i].repr]
=============================================================================
