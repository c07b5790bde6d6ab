-------------------------------- MODULE Abi --------------------------------
(* The C ABI that safer_ffi promises for its types (x86-64 System V, 8-byte pointers): which types
   there are, how large they are, where their fields lie, which bit patterns are values, and which
   bytes of a value have to survive the way from C to Rust and back.

   A type is a tuple whose first element is its kind; user-declared types are looked up in a
   declaration context D, a sequence of records (see Decl below). Byte strings are sequences over
   0..255 in memory order (little endian). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

-----------------------------------------------------------------------------
(* Types. *)
P(n) == <<"p", n>>
Unit == <<"unit">>
Void == <<"void">>
Raw(T) == <<"ptr", T>>          \* *const T
RawMut(T) == <<"mptr", T>>      \* *mut T
Ref(T) == <<"ref", T>>          \* &'static T
RefMut(T) == <<"mref", T>>      \* &'static mut T
NN(T) == <<"nn", T>>            \* ptr::NonNull<T>
NNR(T) == <<"nnr", T>>          \* ptr::NonNullRef<T>
NNM(T) == <<"nnm", T>>          \* ptr::NonNullMut<T>
NNO(T) == <<"nno", T>>          \* ptr::NonNullOwned<T>
Box(T) == <<"box", T>>          \* repr_c::Box<T>
Out(T) == <<"out", T>>          \* Out<'static, T>
Fn(as, r) == <<"fn", as, r>>    \* unsafe extern "C" fn(..) -> r
Arr(T, n) == <<"arr", T, n>>
Tup(Ts) == <<"tup", Ts>>        \* tuple::TupleN<..>
Tag(T) == <<"tag", T>>          \* option::TaggedOption<T>
Sl(k, T) == <<"sl", k, T>>      \* c_slice::{Ref, Mut, Box, Raw}, repr_c::Vec
Str(k) == <<"str", k>>          \* str::{Ref, Box}, repr_c::String
Cp(k) == <<"cp", k>>            \* char_p::{Ref, Box, Raw}
Clo(k, as, r) == <<"clo", k, as, r>>  \* BoxDynFnMutN, ArcDynFnN, RefDynFnMutN
Opt(T) == <<"opt", T>>          \* Option<T> of a type with a null niche
Byts == <<"bytes">>             \* bytes::Bytes
Vp(n, E) == <<"vp", n, E>>      \* VirtualPtr<dyn ..> of the n-th trait of VpTraits; E is their opaque type
(* Types of the stabby crate. *)
SBox(T) == <<"sbox", T>>        \* Box<T>
SArc(T) == <<"sarc", T>>        \* Arc<T>
SWeak(T) == <<"sweak", T>>      \* Weak<T>
SSl(k, T) == <<"ssl", k, T>>    \* BoxedSlice, ArcSlice, WeakSlice
SStr(k) == <<"sstr", k>>        \* BoxedStr, ArcStr, WeakStr
SDyn(k) == <<"sdyn", k>>        \* DynRef, Dyn
SLike(T) == <<"slike", T>>      \* StableLike<T, T>
Stb(T) == <<"stb", T>>          \* Stabbied<T>
NZ(n) == <<"nz", n>>            \* num::NonZero.. (inside Stb)
SRef(T) == <<"sref", T>>        \* &'static T (inside Stb)
Ord == <<"ord">>                \* cmp::Ordering (inside Stb)
Mark == <<"mark">>              \* PhantomData
Dcl(i, as) == <<"d", i, as>>    \* i-th declaration, applied to type arguments
Var(i) == <<"var", i>>          \* i-th type parameter (inside a generic declaration)

PrimSize ==
  [bool |-> 1, u8 |-> 1, i8 |-> 1, u16 |-> 2, i16 |-> 2, u32 |-> 4, i32 |-> 4, f32 |-> 4, u64 |-> 8,
   i64 |-> 8, f64 |-> 8, usize |-> 8, isize |-> 8, c_int |-> 4]

PtrKinds == {"ptr", "mptr", "ref", "mref", "nn", "nnr", "nnm", "nno", "box", "out", "sbox", "sarc", "sweak"}

(* Declarations: records with k = "struct" (fields, params, named), "trans" (fields, named),
   "enum" (repr, discs: byte strings, names), "opaque" (align). *)

Subst(T, as) ==
  LET RECURSIVE S(_)
      S(t) ==
        CASE t[1] = "var" -> as[t[2]]
          [] t[1] \in PtrKinds \cup {"tag", "opt"} -> <<t[1], S(t[2])>>
          [] t[1] = "arr" -> <<"arr", S(t[2]), t[3]>>
          [] t[1] = "tup" -> <<"tup", [j \in 1..Len(t[2]) |-> S(t[2][j])]>>
          [] t[1] \in {"sl", "ssl"} -> <<t[1], t[2], S(t[3])>>
          [] t[1] \in {"slike", "stb", "sref"} -> <<t[1], S(t[2])>>
          [] t[1] = "fn" -> <<"fn", [j \in 1..Len(t[2]) |-> S(t[2][j])], S(t[3])>>
          [] t[1] = "clo" -> <<"clo", t[2], [j \in 1..Len(t[3]) |-> S(t[3][j])], S(t[4])>>
          [] t[1] = "d" -> <<"d", t[2], [j \in 1..Len(t[3]) |-> S(t[3][j])]>>
          [] OTHER -> t
  IN S(T)

VP == NN(Void)
(* The virtual methods of some traits (those of the owner, release and perhaps retain, come first).
   E is the opaque type that stands for the implementor. *)
VpTraits(E) ==
  << [clone |-> FALSE, methods |-> <<>>],
     [clone |-> FALSE, methods |-> <<<<"m", Fn(<<NNR(E), P("u32")>>, P("u8"))>>, <<"n", Fn(<<NNO(E)>>, Unit)>>>>],
     [clone |-> TRUE, methods |-> <<<<"m", Fn(<<NNR(E), Ref(P("u16"))>>, P("bool"))>>>>] >>
VpMethods(n, E) ==
  LET tr == VpTraits(E)[n] IN
  <<<<"release_vptr", Fn(<<NNO(E)>>, Unit)>>>>
  \o (IF tr.clone THEN <<<<"retain_vptr", Fn(<<NNR(E)>>, NNO(E))>>>> ELSE <<>>) \o tr.methods
(* The components of a product type, in order. *)
Parts(D, T) ==
  CASE T[1] = "tup" -> T[2]
    [] T[1] = "arr" -> [i \in 1..T[3] |-> T[2]]
    [] T[1] = "sl" -> IF T[2] = "raw" THEN <<NN(T[3]), P("usize")>>
                      ELSE IF T[2] = "vec" THEN <<NN(T[3]), P("usize"), P("usize")>>
                      ELSE <<NN(T[3]), P("usize")>>
    [] T[1] = "str" -> IF T[2] = "string" THEN <<NN(P("u8")), P("usize"), P("usize")>>
                       ELSE <<NN(P("u8")), P("usize")>>
    [] T[1] = "cp" -> <<NN(P("u8"))>>
    [] T[1] = "bytes" -> <<Raw(P("u8")), P("usize"), Raw(Void), P("usize"), NN(P("u8"))>>
    [] T[1] = "vp" -> <<NNO(T[3]), <<"vtbl", T[2], T[3]>>>>
    [] T[1] = "vtbl" -> LET ms == VpMethods(T[2], T[3]) IN [i \in 1..Len(ms) |-> ms[i][2]]
    [] T[1] = "ssl" -> <<NN(T[3]), NN(T[3])>>
    [] T[1] = "sstr" -> <<NN(P("u8")), NN(P("u8"))>>
    [] T[1] = "sdyn" -> <<Ref(Unit), Ref(<<"vtdrop">>)>>
    [] T[1] = "vtdrop" -> <<Fn(<<RawMut(Void)>>, Unit)>>
    [] T[1] = "slike" -> <<T[2]>>
    [] T[1] = "stb" -> <<T[2]>>
    [] T[1] = "clo" ->
         LET call == Fn(<<VP>> \o T[3], T[4])
             rel == Fn(<<VP>>, Unit)
         IN CASE T[2] = "box" -> <<VP, Opt(call), Opt(rel)>>
              [] T[2] = "arc" -> <<VP, call, rel, Opt(rel)>>
              [] OTHER -> <<VP, call>>
    [] T[1] = "d" -> LET d == D[T[2]] IN
                     IF d.k \in {"struct", "trans"}
                     THEN [i \in 1..Len(d.fields) |-> Subst(d.fields[i], T[3])]
                     ELSE <<>>
    [] OTHER -> <<>>

IsProduct(D, T) ==
  \/ T[1] \in {"tup", "arr", "sl", "str", "cp", "clo", "bytes", "vp", "vtbl", "ssl", "sstr", "sdyn", "vtdrop", "slike", "stb"}
  \/ T[1] = "d" /\ D[T[2]].k \in {"struct", "trans"}

Max(a, b) == IF a > b THEN a ELSE b
Up(n, a) == ((n + a - 1) \div a) * a

(* Size and alignment, by the rules of C. *)
RECURSIVE Lay(_, _)
Lay(D, T) ==
  LET Prod(ps) ==
        LET RECURSIVE L(_, _, _)
            L(i, end, al) ==
              IF i > Len(ps) THEN [sz |-> Up(end, al), al |-> al]
              ELSE LET l == Lay(D, ps[i]) IN L(i + 1, Up(end, l.al) + l.sz, Max(al, l.al))
        IN L(1, 0, 1)
  IN CASE T[1] \in {"p", "nz"} -> [sz |-> PrimSize[T[2]], al |-> PrimSize[T[2]]]
       [] T[1] = "ord" -> [sz |-> 1, al |-> 1]
       [] T[1] = "sref" -> [sz |-> 8, al |-> 8]
       [] T[1] \in PtrKinds \cup {"fn"} -> [sz |-> 8, al |-> 8]
       [] T[1] \in {"mark", "void"} -> [sz |-> 0, al |-> 1]
       [] T[1] = "opt" -> Lay(D, T[2])
       [] T[1] = "tag" -> Prod(<<P("bool"), T[2]>>)
       [] T[1] = "arr" -> LET l == Lay(D, T[2]) IN [sz |-> l.sz * T[3], al |-> l.al]
       [] T[1] = "d" /\ D[T[2]].k = "enum" ->
            LET r == D[T[2]].repr IN [sz |-> PrimSize[r], al |-> PrimSize[r]]
       [] T[1] = "d" /\ D[T[2]].k = "opaque" -> [sz |-> D[T[2]].align, al |-> D[T[2]].align]
       [] OTHER -> Prod(Parts(D, T))
Size(D, T) == Lay(D, T).sz
Align(D, T) == Lay(D, T).al

Offsets(D, T) ==
  IF T[1] = "arr" THEN LET n == Size(D, T[2]) IN [i \in 1..T[3] |-> (i - 1) * n]
  ELSE LET ps == Parts(D, T)
           RECURSIVE O(_, _, _)
           O(i, end, acc) ==
             IF i > Len(ps) THEN acc
             ELSE LET l == Lay(D, ps[i]) o == Up(end, l.al) IN O(i + 1, o + l.sz, Append(acc, o))
       IN O(1, 0, <<>>)

TagPayload(D, T) == Align(D, T[2])   \* the offset of the payload of a tagged option

(* Types whose values are never all-null in a certain word, mostly the first, and whose Option therefore
   is C's nullable counterpart. *)
RECURSIVE Niche(_, _)
Niche(D, T) ==
  \/ T[1] \in {"ref", "mref", "nn", "nnr", "nnm", "nno", "box", "out", "fn", "cp", "sl", "str", "bytes", "vp",
              "sbox", "sarc", "sweak"}
  \/ T[1] = "stb" /\ T[2][1] \in {"nz", "sref"}
  \/ T[1] = "clo" /\ T[2] = "box"
  \/ /\ T[1] = "d"
     /\ D[T[2]].k = "trans"
     /\ LET ps == SelectSeq(Parts(D, T), LAMBDA t : t[1] # "mark") IN
        Len(ps) = 1 /\ Niche(D, ps[1])

(* Where that word is, and how wide. *)
RECURSIVE NicheAt(_, _)
NicheAt(D, T) ==
  CASE T[1] = "bytes" -> <<32, 8>>
    [] T[1] = "stb" -> <<0, Size(D, T[2])>>
    [] T[1] = "d" -> NicheAt(D, SelectSeq(Parts(D, T), LAMBDA t : t[1] # "mark")[1])
    [] OTHER -> <<0, 8>>

-----------------------------------------------------------------------------
(* Values. *)
Bytes(b, o, n) == SubSeq(b, o + 1, o + n)
AllZero(s) == \A i \in 1..Len(s) : s[i] = 0
(* Alignments are powers of two up to 16: only the low byte matters. *)
Aligned(s, a) == s[1] % a = 0

PointeeAlign(D, T) == IF T[2] = Void THEN 1 ELSE Align(D, T[2])

RECURSIVE Valid(_, _, _, _)
Valid(D, T, b, o) ==
  CASE T[1] = "p" -> T[2] # "bool" \/ b[o + 1] \in {0, 1}
    [] T[1] \in {"ptr", "mptr", "mark"} -> TRUE
    [] T[1] \in PtrKinds -> LET s == Bytes(b, o, 8) IN
                            ~AllZero(s) /\ Aligned(s, PointeeAlign(D, T))
    [] T[1] = "fn" -> ~AllZero(Bytes(b, o, 8))
    [] T[1] = "opt" -> LET n == NicheAt(D, T[2]) IN AllZero(Bytes(b, o + n[1], n[2])) \/ Valid(D, T[2], b, o)
    [] T[1] = "nz" -> ~AllZero(Bytes(b, o, PrimSize[T[2]]))
    [] T[1] = "sref" -> ~AllZero(Bytes(b, o, 8))     \* (stabby's notion: alignment is not looked at)
    [] T[1] = "ord" -> b[o + 1] \in {0, 1, 255}
    [] T[1] = "tag" -> \/ b[o + 1] = 0
                       \/ b[o + 1] = 1 /\ Valid(D, T[2], b, o + TagPayload(D, T))
    [] T[1] = "d" /\ D[T[2]].k = "enum" ->
         LET d == D[T[2]] s == Bytes(b, o, PrimSize[d.repr]) IN
         \E i \in 1..Len(d.discs) : d.discs[i] = s
    [] T[1] = "arr" -> LET n == Size(D, T[2]) IN
                       \A i \in 1..T[3] : Valid(D, T[2], b, o + (i - 1) * n)
    [] OTHER -> LET ps == Parts(D, T) os == Offsets(D, T) IN
                \A i \in 1..Len(ps) : Valid(D, ps[i], b, o + os[i])

(* The bytes of a valid value that carry it: the others are padding, or the payload of None. *)
RECURSIVE Cover(_, _, _, _)
Cover(D, T, b, o) ==
  CASE T[1] = "mark" -> {}
    [] T[1] = "opt" -> LET n == NicheAt(D, T[2]) IN
                       IF AllZero(Bytes(b, o + n[1], n[2])) THEN o + n[1] .. o + n[1] + n[2] - 1
                       ELSE Cover(D, T[2], b, o)
    [] T[1] = "tag" -> IF b[o + 1] = 0 THEN {o}
                       ELSE {o} \cup Cover(D, T[2], b, o + TagPayload(D, T))
    [] T[1] = "d" /\ D[T[2]].k = "enum" -> o .. o + Size(D, T) - 1
    [] IsProduct(D, T) ->
         LET ps == Parts(D, T) os == Offsets(D, T) IN
         UNION {Cover(D, ps[i], b, o + os[i]) : i \in 1..Len(ps)}
    [] OTHER -> o .. o + Size(D, T) - 1

(* What lies at which offset: <<offset, width, class>>, for every leaf of the type. Classes:
   "any", "bool", "tag", <<"ptr", align>>, "fn", <<"enum", decl>>. *)
RECURSIVE Leaves(_, _, _)
Leaves(D, T, o) ==
  LET Cat(n, f(_)) == LET RECURSIVE C(_, _)
                          C(i, acc) == IF i > n THEN acc ELSE C(i + 1, acc \o f(i))
                      IN C(1, <<>>)
  IN CASE T[1] = "p" -> <<<<o, PrimSize[T[2]], IF T[2] = "bool" THEN <<"bool">> ELSE <<"any">>>>>>
       [] T[1] = "mark" -> <<>>
       [] T[1] = "nz" -> <<<<o, PrimSize[T[2]], <<"nz">>>>>>
       [] T[1] = "sref" -> <<<<o, 8, <<"nz">>>>>>
       [] T[1] = "ord" -> <<<<o, 1, <<"ord">>>>>>
       [] T[1] \in {"ptr", "mptr"} -> <<<<o, 8, <<"any">>>>>>
       [] T[1] \in PtrKinds -> <<<<o, 8, <<"ptr", PointeeAlign(D, T)>>>>>>
       [] T[1] = "fn" -> <<<<o, 8, <<"fn">>>>>>
       [] T[1] = "opt" -> Leaves(D, T[2], o)
       [] T[1] = "tag" -> <<<<o, 1, <<"tag">>>>>> \o Leaves(D, T[2], o + TagPayload(D, T))
       [] T[1] = "d" /\ D[T[2]].k = "enum" -> <<<<o, Size(D, T), <<"enum", T[2]>>>>>>
       [] T[1] = "arr" -> LET n == Size(D, T[2]) IN Cat(T[3], LAMBDA i : Leaves(D, T[2], o + (i - 1) * n))
       [] OTHER -> LET ps == Parts(D, T) os == Offsets(D, T) IN
                   Cat(Len(ps), LAMBDA i : Leaves(D, ps[i], o + os[i]))

(* A valid pattern for a leaf, distinct for distinct offsets and salts. *)
Noise(i, salt) == (i * 29 + salt * 83 + 17) % 256
LeafBase(D, l, salt) ==
  LET w == l[2] c == l[3][1] IN
  CASE c = "any" -> [i \in 1..w |-> Noise(l[1] + i, salt)]
    [] c = "nz" -> [i \in 1..w |-> IF i = 1 THEN Max(1, Noise(l[1], salt)) ELSE IF i <= 5 THEN Noise(l[1] + i, salt) ELSE 0]
    [] c = "ord" -> <<(l[1] + salt) % 2>>
    [] c = "bool" -> <<(l[1] + salt) % 2>>
    [] c = "tag" -> <<1>>
    [] c = "ptr" -> [i \in 1..8 |-> IF i = 1 THEN 16 * (Noise(l[1], salt) % 16)
                                    ELSE IF i <= 5 THEN Noise(l[1] + i, salt) ELSE 0]
    [] c = "fn" -> [i \in 1..8 |-> IF i <= 5 THEN Noise(l[1] + i, salt) ELSE 0]
    [] OTHER -> LET d == D[l[3][2]] IN d.discs[((l[1] + salt) % Len(d.discs)) + 1]

Overlay(b, o, s) == SubSeq(b, 1, o) \o s \o SubSeq(b, o + Len(s) + 1, Len(b))

(* The leaves' values with `pad` between them. *)
Assemble(D, ls, n, salt, val(_)) ==
  LET pad(m) == [j \in 1..m |-> (170 + salt) % 256]     \* padding is not zero
      RECURSIVE B(_, _)
      B(i, acc) == IF i > Len(ls) THEN acc \o pad(n - Len(acc))
                   ELSE B(i + 1, acc \o pad(ls[i][1] - Len(acc)) \o val(ls[i]))
  IN B(1, <<>>)
Base(D, T, salt) ==
  Assemble(D, Leaves(D, T, 0), Size(D, T), salt, LAMBDA l : LeafBase(D, l, salt))
(* A base in which every tag says None. *)
NoneBase(D, T, salt) ==
  Assemble(D, Leaves(D, T, 0), Size(D, T), salt,
           LAMBDA l : IF l[3][1] = "tag" THEN <<0>> ELSE LeafBase(D, l, salt))

Fill(w, x) == [i \in 1..w |-> x]
One(w, i, x) == [j \in 1..w |-> IF j = i THEN x ELSE 0]
Set1(s, i, x) == [s EXCEPT ![i] = x]
RECURSIVE Inc(_)
Inc(s) == IF s = <<>> THEN <<>>
          ELSE IF s[1] = 255 THEN <<0>> \o Inc(Tail(s)) ELSE <<s[1] + 1>> \o Tail(s)
RECURSIVE Dec(_)
Dec(s) == IF s = <<>> THEN <<>>
          ELSE IF s[1] = 0 THEN <<255>> \o Dec(Tail(s)) ELSE <<s[1] - 1>> \o Tail(s)
Not(s) == [i \in 1..Len(s) |-> 255 - s[i]]

LeafMuts(D, l, salt) ==
  LET w == l[2] c == l[3][1] IN
  CASE c = "any" -> {Fill(w, 0), Fill(w, 255)}
    [] c = "nz" -> {Fill(w, 0), Fill(w, 255)} \cup {One(w, i, 1) : i \in 1..w} \cup {One(w, i, 128) : i \in 1..w}
    [] c = "ord" -> {<<x>> : x \in {0, 1, 2, 127, 128, 129, 253, 254, 255}}
    [] c = "bool" -> {<<x>> : x \in {0, 1, 2, 3, 4, 8, 16, 32, 64, 127, 128, 129, 254, 255}}
    [] c = "tag" -> {<<x>> : x \in {0, 1, 2, 3, 128, 129, 255}}
    [] c = "ptr" ->
         LET a == l[3][2] b == LeafBase(D, l, salt) IN
         {Fill(8, 0), Fill(8, 255), One(8, 1, 16), One(8, 5, 16), One(8, 8, 128), One(8, 1, 1),
          Set1(b, 1, 0)}
         \cup {Set1(b, 1, x) : x \in {1, 2, 4, 8, 12, 255, a % 256, a \div 2}}
    [] c = "fn" -> {Fill(8, 0), One(8, 1, 1), One(8, 5, 1), One(8, 8, 128), Fill(8, 255)}
    [] OTHER ->
         LET d == D[l[3][2]]
             some == {d.discs[i] : i \in {j \in 1..Len(d.discs) : j <= 4 \/ j > Len(d.discs) - 2}}
         IN some \cup {Inc(s) : s \in some} \cup {Dec(s) : s \in some} \cup {Not(s) : s \in some}
            \cup (IF w > 1 THEN {Set1(s, w, (s[w] + 1) % 256) : s \in some}
                                \cup {Set1(s, 2, (s[2] + 128) % 256) : s \in some}
                  ELSE {})
            \cup {Fill(w, 0), Fill(w, 255)}

(* Vectors: byte strings of the type's size. One base per salt, every leaf mutated in a base with
   all payloads present and in one without, and pairs of mutated leaves. *)
Vectors(D, T, salt, pairs) ==
  LET ls == Leaves(D, T, 0)
      b1 == Base(D, T, salt)
      b2 == NoneBase(D, T, salt)
      hasTag == \E i \in 1..Len(ls) : ls[i][3][1] = "tag"
      mut(b, i) == {Overlay(b, ls[i][1], s) : s \in LeafMuts(D, ls[i], salt)}
      small == {i \in 1..Len(ls) : i <= pairs}
  IN {b1, Base(D, T, salt + 1)}
     \cup UNION {mut(b1, i) : i \in 1..Len(ls)}
     \cup (IF hasTag THEN {b2} \cup UNION {mut(b2, i) : i \in 1..Len(ls)} ELSE {})
     \cup UNION {UNION {{Overlay(v, ls[j][1], s) : s \in LeafMuts(D, ls[j], salt + 1)}
                        : v \in mut(b1, i)} : i \in small, j \in small}

(* Exhaustive for types of one or two bytes: the set of all valid byte strings. *)
Byte == 0..255
AllValid(D, T) ==
  IF T[1] = "d" /\ D[T[2]].k = "enum" THEN {D[T[2]].discs[i] : i \in 1..Len(D[T[2]].discs)}
  ELSE IF Size(D, T) = 1 THEN {s \in {<<x>> : x \in Byte} : Valid(D, T, s, 0)}
  ELSE {s \in {<<x, y>> : x, y \in Byte} : Valid(D, T, s, 0)}

-----------------------------------------------------------------------------
(* What a foreign declaration of a type has to say. The foreign type of a value: <<"c", prim>>,
   <<"cp", const, pointee>>, <<"cf", arguments, result>>, <<"ce", decl>> an enum, <<"co", decl>> an
   opaque type, <<"ca", T>> an aggregate. *)
Significant(D, T) == SelectSeq(Parts(D, T), LAMBDA t : t # Mark)
ConstPtr == {"ptr", "ref", "nnr"}
RECURSIVE Foreign(_, _)
Foreign(D, T) ==
  CASE T[1] = "p" -> <<"c", T[2]>>
    [] T[1] \in {"unit", "void"} -> <<"c", "void">>
    [] T[1] = "sbox" -> <<"cp", TRUE, <<"c", "void">>>>
    [] T[1] \in PtrKinds -> <<"cp", T[1] \in ConstPtr, Foreign(D, T[2])>>
    [] T[1] = "fn" -> <<"cf", [i \in 1..Len(T[2]) |-> Foreign(D, T[2][i])], Foreign(D, T[3])>>
    [] T[1] = "opt" -> Foreign(D, T[2])
    [] T[1] = "cp" -> <<"cp", T[2] # "box", <<"c", "char">>>>
    [] T[1] = "slike" -> Foreign(D, T[2])
    [] T[1] = "stb" -> LET n == Size(D, T[2]) IN   \* the unsigned integer of that size
                       <<"c", CASE n = 1 -> "u8" [] n = 2 -> "u16" [] n = 4 -> "u32" [] OTHER -> "u64">>
    \* one declaration for all of the same shape
    [] T[1] = "ssl" -> <<"ca", SSl("box", T[3])>>
    [] T[1] = "sstr" -> <<"ca", SSl("box", P("u8"))>>
    [] T[1] = "sdyn" -> <<"ca", SDyn("ref")>>
    [] T[1] = "d" /\ D[T[2]].k = "enum" -> <<"ce", T[2]>>
    [] T[1] = "d" /\ D[T[2]].k = "opaque" -> <<"co", T[2]>>
    [] T[1] = "d" /\ D[T[2]].k = "trans" -> Foreign(D, Significant(D, T)[1])
    [] OTHER -> <<"ca", T>>

(* The members of an aggregate: names, foreign types and offsets. Markers have no member. *)
MemberNames(D, T) ==
  CASE T[1] \in {"tup", "tag"} -> <<"_0", "_1", "_2", "_3", "_4", "_5">>
    [] T[1] = "arr" -> <<"idx">>
    [] T[1] \in {"sl", "str"} -> <<"ptr", "len", "cap">>
    [] T[1] = "bytes" -> <<"start", "len", "owner", "capacity", "vtable">>
    [] T[1] \in {"ssl", "sstr"} -> <<"start", "end">>
    [] T[1] = "vp" -> <<"ptr", "vtable">>
    [] T[1] = "vtbl" -> LET ms == VpMethods(T[2], T[3]) IN [i \in 1..Len(ms) |-> ms[i][1]]
    [] T[1] = "sdyn" -> <<"data", "vtable">>
    [] T[1] = "vtdrop" -> <<"v_drop">>
    [] T[1] = "clo" -> <<"env_ptr", "call", IF T[2] = "arc" THEN "release" ELSE "free", "retain">>
    [] OTHER -> LET d == D[T[2]] IN
                [i \in 1..Len(d.fields) |-> <<IF d.named THEN "named" ELSE "positional", i - 1>>]
SlicePtr(T) ==   \* the first component of the containers is a pointer, to constants for the shared ones
  CASE T[1] = "sl" -> <<"cp", T[2] = "ref", T[3]>>
    [] T[1] = "str" -> <<"cp", T[2] = "ref", P("u8")>>
    [] T[1] = "ssl" -> <<"cp", TRUE, T[3]>>
    [] OTHER -> <<"cp", TRUE, P("u8")>>
Members(D, T) ==
  LET names == MemberNames(D, T)
      parts == IF T[1] = "tag" THEN <<P("bool"), T[2]>> ELSE Parts(D, T)
      offs == IF T[1] = "tag" THEN <<0, TagPayload(D, T)>> ELSE Offsets(D, T)
      RECURSIVE M(_, _)
      M(i, acc) ==
        IF i > Len(parts) THEN acc
        ELSE IF parts[i] = Mark THEN M(i + 1, acc)
        ELSE LET f == IF (i = 1 /\ T[1] \in {"sl", "str"}) \/ T[1] \in {"ssl", "sstr"}
                      THEN LET sp == SlicePtr(T) IN <<"cp", sp[2], Foreign(D, sp[3])>>
                      ELSE Foreign(D, parts[i])
             IN M(i + 1, Append(acc, <<names[i], f, offs[i]>>))
  IN IF T[1] = "arr" THEN <<<<"idx", <<"cn", Foreign(D, T[2]), T[3]>>, 0>>>>
     ELSE M(1, <<>>)

(* Parameters of exported functions are patterns. Identifiers keep their names, except those which look
   like the names that the other patterns are given; places are counted from 0. *)
PatKinds == <<"plain", "plain", "mut", "ref", "wild", "next", "prev", "raw">>
(* What the pattern binds: "next" and "prev" are the names given to a neighbour. *)
Binds(kind, i) ==
  CASE kind = "wild" -> "_"
    [] kind = "next" -> "__arg_" \o ToString(i + 1)
    [] kind = "prev" -> "__arg_" \o ToString(IF i = 0 THEN 99 ELSE i - 1)
    [] kind = "raw" -> "r#type"
    [] OTHER -> "a" \o ToString(i)
ParamName(kind, i) ==
  CASE kind \in {"wild", "next", "prev"} -> "__arg_" \o ToString(i)
    [] kind = "raw" -> "type"
    [] OTHER -> Binds(kind, i)

(* Every aggregate, enum and opaque type that a foreign type mentions, those it is made of first. *)
RECURSIVE Mentions(_, _, _)
Mentions(D, f, seen) ==
  LET All(fs, s) == LET RECURSIVE A(_, _)
                        A(i, acc) == IF i > Len(fs) THEN acc ELSE A(i + 1, Mentions(D, fs[i], acc))
                    IN A(1, s)
      add(s) == IF \E i \in 1..Len(s) : s[i] = f THEN s ELSE Append(s, f)
  IN IF \E i \in 1..Len(seen) : seen[i] = f THEN seen
     ELSE CASE f[1] = "c" -> seen
            [] f[1] = "cp" -> Mentions(D, f[3], seen)
            [] f[1] = "cn" -> Mentions(D, f[2], seen)
            [] f[1] = "cf" -> Mentions(D, f[3], All(f[2], seen))
            [] f[1] = "ca" -> LET ms == Members(D, f[2]) IN
                              add(All([i \in 1..Len(ms) |-> ms[i][2]], seen))
            [] OTHER -> add(seen)

-----------------------------------------------------------------------------
(* Consequences the definitions have to have (checked on every generated universe). *)
LayoutSound(D, T) ==
  LET ls == Leaves(D, T, 0) n == Size(D, T) a == Align(D, T) IN
  \* leaves come in order, so neighbours not overlapping is enough
  /\ n % a = 0
  /\ \A i \in 1..Len(ls) : ls[i][1] + ls[i][2] <= n
  /\ \A i \in 1..Len(ls) - 1 : ls[i][1] + ls[i][2] <= ls[i + 1][1]
  /\ \A i \in 1..Len(ls) : ls[i][3][1] \in {"ptr", "fn"} => ls[i][1] % 8 = 0
BaseSound(D, T, salt) ==
  /\ Valid(D, T, Base(D, T, salt), 0)
  /\ Valid(D, T, NoneBase(D, T, salt), 0)
  /\ Cover(D, T, Base(D, T, salt), 0) \subseteq 0 .. Size(D, T) - 1

(* Calls of an exported function: what the C caller sees. `debug`: debug assertions are on. *)
CallOutcome(valid, panics, debug) ==
  IF debug /\ (\E i \in 1..Len(valid) : ~valid[i]) THEN "abort-before-body"
  ELSE IF panics THEN "abort"
  ELSE "return"
=============================================================================
