-------------------------------- MODULE Types --------------------------------
(* Types and constants as values.  A type is a tagged tuple; a constant is     *)
(* <<opcode, type, words, constituents>>.  Decode says which value an           *)
(* instruction of the types-and-constants section stands for, given the values *)
(* of the instructions it refers to; a module is right when every request is    *)
(* answered by an instruction that stands for what was requested, and no value  *)
(* is declared twice (specialization constants are new every time).             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Bad == <<"bad">>
TypeOps == 19..39 \cup {322, 327, 4472, 5341}
\* types without operands
Plain == {34, 35, 36, 37, 322, 327, 4472, 5341}
Constants == 41..46 \cup 48..51
Specs == 48..51
U32 == <<"Int", 32, 0>>

\* ---------------------------------------------------------------- operands
IsRef(o) == o[1] = "i"
IsLit(o) == o[1] = "l"
Num(o) == o[2] * 65536 + o[3]
Small(o) == IsLit(o) /\ o[2] < 32768
\* (no type has four parts, every constant has)
IsType(d) == d # Bad /\ Len(d) # 4
IsConst(d) == Len(d) = 4

\* value of an instruction <<node, op, operands>>; D: node -> value
\* (Get: a reference that is not declared before stands for nothing)
Get(D, o) == IF IsRef(o) /\ o[2] \in DOMAIN D THEN D[o[2]] ELSE Bad
Lens(D, o) == LET c == Get(D, o) IN IF c # Bad /\ c[1] \in {43} /\ c[2][1] = "Int" /\ c[2][2] = 32 /\ c[3][1][1] = 0 THEN c[3][1][2] ELSE -1
DecodeType(op, a, D) ==
  LET n == Len(a)
      sub(k) == Get(D, a[k])
      lit(k) == Small(a[k])
      types(k) == \A x \in k..n : IsType(Get(D, a[x]))
      subs(k) == [x \in 1..(n - k + 1) |-> Get(D, a[k + x - 1])] IN
  CASE op = 19 /\ n = 0 -> <<"Void">>
    [] op = 20 /\ n = 0 -> <<"Bool">>
    [] op = 21 /\ n = 2 /\ lit(1) /\ lit(2) -> <<"Int", Num(a[1]), Num(a[2])>>
    [] op = 22 /\ n = 1 /\ lit(1) -> <<"Float", Num(a[1])>>
    [] op = 23 /\ n = 2 /\ IsType(sub(1)) /\ lit(2) -> <<"Vec", sub(1), Num(a[2])>>
    [] op = 24 /\ n = 2 /\ IsType(sub(1)) /\ lit(2) -> <<"Mat", sub(1), Num(a[2])>>
    [] op = 25 /\ n \in {7, 8} /\ IsType(sub(1)) /\ \A k \in 2..n : lit(k) ->
         <<"Img", sub(1), Num(a[2]), Num(a[3]), Num(a[4]), Num(a[5]), Num(a[6]), Num(a[7]), IF n = 8 THEN Num(a[8]) ELSE -1>>
    [] op = 26 /\ n = 0 -> <<"Sampler">>
    [] op = 27 /\ n = 1 /\ IsType(sub(1)) -> <<"SImg", sub(1)>>
    [] op = 28 /\ n = 2 /\ IsType(sub(1)) /\ Lens(D, a[2]) >= 0 -> <<"Arr", sub(1), Lens(D, a[2])>>
    [] op = 29 /\ n = 1 /\ IsType(sub(1)) -> <<"RArr", sub(1)>>
    [] op = 30 /\ types(1) -> <<"Struct", subs(1)>>
    [] op = 32 /\ n = 2 /\ lit(1) /\ IsType(sub(2)) -> <<"Ptr", Num(a[1]), sub(2)>>
    [] op = 33 /\ n >= 1 /\ types(1) -> <<"Fun", subs(1)>>
    [] op \in Plain /\ n = 0 -> <<"T", op>>
    [] OTHER -> Bad
ConstWords(a) == [k \in DOMAIN a |-> <<a[k][2], a[k][3]>>]
WordsOf(t) == IF t[1] \in {"Int", "Float"} THEN (IF t[2] = 64 THEN 2 ELSE 1) ELSE -1
DecodeConst(op, t, a, D) ==
  LET lits == \A k \in DOMAIN a : IsLit(a[k])
      comps == [k \in DOMAIN a |-> Get(D, a[k])] IN
  CASE op \in {41, 42, 48, 49} /\ t = <<"Bool">> /\ a = <<>> -> <<op, t, <<>>, <<>>>>
    [] op = 46 /\ a = <<>> -> <<op, t, <<>>, <<>>>>
    [] op \in {43, 50} /\ lits /\ Len(a) = WordsOf(t) -> <<op, t, ConstWords(a), <<>>>>
    [] op = 45 /\ t = <<"Sampler">> /\ lits /\ Len(a) = 3 -> <<op, t, ConstWords(a), <<>>>>
    [] op \in {44, 51} /\ \A k \in DOMAIN comps : IsConst(comps[k]) -> <<op, t, <<>>, comps>>
    [] OTHER -> Bad
Decode(i, D) ==
  LET op == i[2]  a == i[3] IN
  IF op \in TypeOps THEN (IF a # <<>> /\ a[1][1] = "d" THEN DecodeType(op, Tail(a), D) ELSE Bad)
  ELSE IF op \in Constants THEN (IF Len(a) >= 2 /\ a[2][1] = "d" /\ IsType(Get(D, a[1])) THEN DecodeConst(op, D[a[1][2]], SubSeq(a, 3, Len(a)), D) ELSE Bad)
  ELSE Bad

\* ------------------------------------------------- what a value is made of
LenConst(n) == <<43, U32, <<<<0, n>>>>, <<>>>>
RECURSIVE Parts(_)
Parts(d) ==
  IF IsConst(d) THEN {d} \cup Parts(d[2]) \cup UNION {Parts(d[4][k]) : k \in DOMAIN d[4]}
  ELSE {d} \cup
   (CASE d[1] \in {"Vec", "Mat", "Img", "SImg", "RArr"} -> Parts(d[2])
      [] d[1] = "Arr" -> Parts(d[2]) \cup {LenConst(d[3]), U32}
      [] d[1] = "Ptr" -> Parts(d[3])
      [] d[1] \in {"Struct", "Fun"} -> UNION {Parts(d[2][k]) : k \in DOMAIN d[2]}
      [] OTHER -> {})

\* ------------------------------------------------- requested constants
\* <<"C", kind, type, bits (16 bit pieces, low first), constituents>>
SignExt(t) == t[1] = "Int" /\ t[3] = 1
Lit(t, b) ==
  CASE t[1] = "Bool" -> <<>>
    [] t[2] = 8 -> IF SignExt(t) /\ b[1] >= 128 THEN <<<<65535, 65280 + b[1]>>>> ELSE <<<<0, b[1]>>>>
    [] t[2] = 16 -> IF SignExt(t) /\ b[1] >= 32768 THEN <<<<65535, b[1]>>>> ELSE <<<<0, b[1]>>>>
    [] t[2] = 32 -> <<<<b[2], b[1]>>>>
    [] t[2] = 64 -> <<<<b[2], b[1]>>, <<b[4], b[3]>>>>
RECURSIVE Value(_)
Value(c) ==
  LET k == c[2]  t == c[3]  b == c[4]  s == k \in {"spec", "speccomp"} IN
  CASE k = "null" -> <<46, t, <<>>, <<>>>>
    [] k = "sampler" -> <<45, t, [x \in DOMAIN b |-> <<0, b[x]>>], <<>>>>
    [] k \in {"val", "spec"} /\ t = <<"Bool">> -> <<IF b[1] = 1 THEN (IF s THEN 48 ELSE 41) ELSE (IF s THEN 49 ELSE 42), t, <<>>, <<>>>>
    [] k \in {"val", "spec"} -> <<IF s THEN 50 ELSE 43, t, Lit(t, b), <<>>>>
    [] k \in {"comp", "speccomp"} -> <<IF s THEN 51 ELSE 44, t, <<>>, [x \in DOMAIN c[5] |-> Value(c[5][x])]>>
Want(r) == IF r[1] = "C" THEN Value(r) ELSE r
RECURSIVE HasSpec(_)
HasSpec(d) == IsConst(d) /\ (d[1] \in Specs \/ \E k \in DOMAIN d[4] : HasSpec(d[4][k]))
\* the words a library object keeps for values that carry none are its own business
RECURSIVE Norm(_)
Norm(d) == IF IsConst(d) THEN <<d[1], d[2], IF d[1] \in {43, 45, 50} THEN d[3] ELSE <<>>, [k \in DOMAIN d[4] |-> Norm(d[4][k])]>> ELSE d

\* ------------------------------------------------- a module's declarations
Range(f) == {f[x] : x \in DOMAIN f}
RECURSIVE Fold(_, _, _)
Fold(D, new, k) == IF k > Len(new) THEN D ELSE Fold((new[k][1] :> Decode(new[k], D)) @@ D, new, k + 1)
\* a request w answered by node got with the instructions new appended
Answer(D, w, got, new) ==
  LET E == Fold(D, new, 1)  N == {new[k][1] : k \in DOMAIN new} IN
  [ E |-> E,
    fresh |-> Cardinality(N) = Len(new) /\ N \cap DOMAIN D = {},
    decoded |-> \A k \in N : E[k] # Bad,
    right |-> got \in DOMAIN E /\ E[got] = w,
    \* only what the request is made of, each once, is declared
    needed |-> \A k \in N : E[k] \in Parts(w),
    once |-> \A k \in N : HasSpec(E[k]) \/ (E[k] \notin Range(D) /\ \A j \in N \ {k} : E[j] # E[k]),
    again |-> (w \in Range(D) /\ ~HasSpec(w)) => new = <<>>,
    newspec |-> HasSpec(w) => got \in N ]
Good(a) == a.fresh /\ a.decoded /\ a.right /\ a.needed /\ a.once /\ a.again /\ a.newspec
=============================================================================
