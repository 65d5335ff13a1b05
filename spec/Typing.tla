-------------------------------- MODULE Typing --------------------------------
(* What an operation requested without naming a result type adds to a block for *)
(* the types of its operands, and which operand types it is not defined for.    *)
(* A rule is [v, s]: v = "ok": accepted without complaint; "no": refused with a *)
(* complaint, nothing is added; "may": either; "bad": complaint, what is added  *)
(* is left open; s: the instructions added when accepted, <<opcode, result type *)
(* (<<>>: none), operands>>; operands: <<"a", k>> operand k of the request,      *)
(* <<"l", hi, lo>> a literal, <<"c", w, t>> a constant, <<"n", k>> the k-th      *)
(* instruction added, <<"b", k>> the block of operand k.                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

I(w) == <<"Int", w, 1>>
U(w) == <<"Int", w, 0>>
F(w) == <<"Float", w>>
B == <<"Bool">>
Void == <<"Void">>
V(t, n) == <<"Vec", t, n>>
M(t, n) == <<"Mat", t, n>>
IsInt(t) == t[1] = "Int"
IsFlt(t) == t[1] = "Float"
IsBool(t) == t[1] = "Bool"
IsVec(t) == t[1] = "Vec"
IsMat(t) == t[1] = "Mat"
IsPtr(t) == t[1] = "Ptr"
IsImg(t) == t[1] = "Img"
IsSImg(t) == t[1] = "SImg"
IsNum(t) == IsInt(t) \/ IsFlt(t)
IsScalar(t) == IsNum(t) \/ IsBool(t)
IsComposite(t) == t[1] \in {"Vec", "Mat", "Arr", "Struct"}
Comp(t) == IF IsVec(t) THEN t[2] ELSE t
Dim(t) == IF IsVec(t) THEN t[3] ELSE 1
SV(t, k) == Comp(t)[1] = k
NumSV(t) == SV(t, "Int") \/ SV(t, "Float")
Width(t) == IF IsNum(Comp(t)) THEN Comp(t)[2] ELSE 0
Signed(t) == SV(t, "Int") /\ Comp(t)[3] = 1
Unsigned(t) == SV(t, "Int") /\ Comp(t)[3] = 0
With(t, c) == IF IsVec(t) THEN V(c, t[3]) ELSE c
\* same shape and width of components
Shape(a, b) == IsVec(a) = IsVec(b) /\ Dim(a) = Dim(b) /\ Width(a) = Width(b)
Bools(t) == With(t, B)

Ok(s) == [v |-> "ok", s |-> s]
May(s) == [v |-> "may", s |-> s]
No == [v |-> "no", s |-> <<>>]
A(k) == <<"a", k>>
L(n) == <<"l", n \div 65536, n % 65536>>
Args(n) == [k \in 1..n |-> A(k)]
One(op, t, args) == <<<<op, t, args>>>>
When(c, r) == IF c THEN r ELSE No

------------------------------------------------------------------ \* one operand
\* <<opcode, component kind, sign, result>>
UnOps == [
  opSNegate |-> <<126, "Int", "s", "same">>, opFNegate |-> <<127, "Float", "", "same">>, opNot |-> <<200, "Int", "", "same">>, opLogicalNot |-> <<168, "Bool", "", "same">>,
  opConvertFToU |-> <<109, "Float", "", "u">>, opConvertFToS |-> <<110, "Float", "", "s">>, opConvertSToF |-> <<111, "Int", "s", "f">>, opConvertUToF |-> <<112, "Int", "u", "f">>,
  opSatConvertSToU |-> <<118, "Int", "", "same">>, opSatConvertUToS |-> <<119, "Int", "", "same">>,
  opIsNan |-> <<156, "Float", "", "bool">>, opIsInf |-> <<157, "Float", "", "bool">>, opIsFinite |-> <<158, "Float", "", "bool">>, opIsNormal |-> <<159, "Float", "", "bool">>, opSignBitSet |-> <<160, "Float", "", "bool">>,
  opBitReverse |-> <<204, "Int", "", "same">>, opBitCount |-> <<205, "Int", "", "same">>,
  opDPdx |-> <<207, "Float", "", "same">>, opDPdy |-> <<208, "Float", "", "same">>, opFwidth |-> <<209, "Float", "", "same">>,
  opDPdxFine |-> <<210, "Float", "", "same">>, opDPdyFine |-> <<211, "Float", "", "same">>, opFwidthFine |-> <<212, "Float", "", "same">>,
  opDPdxCoarse |-> <<213, "Float", "", "same">>, opDPdyCoarse |-> <<214, "Float", "", "same">>, opFwidthCoarse |-> <<215, "Float", "", "same">>]
SignOk(t, s) == s = "" \/ (s = "s" /\ Signed(t)) \/ (s = "u" /\ Unsigned(t))
UnRes(t, r) == CASE r = "same" -> t [] r = "bool" -> Bools(t) [] r = "u" -> With(t, U(Width(t))) [] r = "s" -> With(t, I(Width(t))) [] r = "f" -> With(t, F(Width(t)))
Un(h, t) ==
  LET d == UnOps[h]  s == One(d[1], UnRes(t, d[4]), Args(1)) IN
  IF ~(SV(t, d[2]) /\ SignOk(t, d[3])) THEN No
  \* there is no floating point type of 8 bits to convert to
  ELSE IF d[4] = "f" /\ Width(t) = 8 THEN [v |-> "any", s |-> s]
  ELSE IF d[1] \in 207..215 /\ Width(t) # 32 THEN May(s) ELSE Ok(s)

----------------------------------------------------------------- \* two operands
BinOps == [
  opIAdd |-> <<128, "Int", "", "same">>, opFAdd |-> <<129, "Float", "", "same">>, opISub |-> <<130, "Int", "", "same">>, opFSub |-> <<131, "Float", "", "same">>,
  opIMul |-> <<132, "Int", "", "same">>, opFMul |-> <<133, "Float", "", "same">>, opUDiv |-> <<134, "Int", "u", "same">>, opSDiv |-> <<135, "Int", "", "sgn">>,
  opFDiv |-> <<136, "Float", "", "same">>, opUMod |-> <<137, "Int", "u", "same">>, opSRem |-> <<138, "Int", "", "sgn">>, opSMod |-> <<139, "Int", "", "sgn">>,
  opFRem |-> <<140, "Float", "", "same">>, opFMod |-> <<141, "Float", "", "same">>,
  opIAddCarry |-> <<149, "Int", "u", "pair">>, opISubBorrow |-> <<150, "Int", "u", "pair">>, opUMulExtended |-> <<151, "Int", "u", "pair">>, OpSMulExtended |-> <<152, "Int", "s", "pair">>,
  opOrdered |-> <<162, "Float", "", "bool">>, opUnordered |-> <<163, "Float", "", "bool">>,
  opLogicalEqual |-> <<164, "Bool", "", "same">>, opLogicalNotEqual |-> <<165, "Bool", "", "same">>, opLogicalOr |-> <<166, "Bool", "", "same">>, opLogicalAnd |-> <<167, "Bool", "", "same">>,
  opIEqual |-> <<170, "Int", "", "bool">>, opINotEqual |-> <<171, "Int", "", "bool">>,
  opUGreaterThan |-> <<172, "Int", "", "bool">>, opSGreaterThan |-> <<173, "Int", "", "bool">>, opUGreaterThanEqual |-> <<174, "Int", "", "bool">>, opSGreaterThanEqual |-> <<175, "Int", "", "bool">>,
  opULessThan |-> <<176, "Int", "", "bool">>, opSLessThan |-> <<177, "Int", "", "bool">>, opULessThanEqual |-> <<178, "Int", "", "bool">>, opSLessThanEqual |-> <<179, "Int", "", "bool">>,
  opFOrdEqual |-> <<180, "Float", "", "bool">>, opFUnordEqual |-> <<181, "Float", "", "bool">>, opFOrdNotEqual |-> <<182, "Float", "", "bool">>, opFUnordNotEqual |-> <<183, "Float", "", "bool">>,
  opFOrdLessThan |-> <<184, "Float", "", "bool">>, opFUnordLessThan |-> <<185, "Float", "", "bool">>, opFOrdGreaterThan |-> <<186, "Float", "", "bool">>, opFUnordGreaterThan |-> <<187, "Float", "", "bool">>,
  opFOrdLessThanEqual |-> <<188, "Float", "", "bool">>, opFUnordLessThanEqual |-> <<189, "Float", "", "bool">>, opFOrdGreaterThanEqual |-> <<190, "Float", "", "bool">>, opFUnordGreaterThanEqual |-> <<191, "Float", "", "bool">>,
  opShiftRightLogical |-> <<194, "Int", "", "same">>, opShiftRightArithmetic |-> <<195, "Int", "", "same">>, opShiftLeftLogical |-> <<196, "Int", "", "same">>,
  opBitwiseOr |-> <<197, "Int", "", "same">>, opBitwiseXor |-> <<198, "Int", "", "same">>, opBitwiseAnd |-> <<199, "Int", "", "same">>]
BinRes(a, b, r) == CASE r = "same" -> a [] r = "bool" -> Bools(a) [] r = "sgn" -> With(a, I(Width(a))) [] r = "pair" -> <<"Struct", <<a, b>>>>
Bin(h, a, b) ==
  LET d == BinOps[h]  kinds == SV(a, d[2]) /\ SV(b, d[2]) /\ SignOk(a, d[3]) /\ SignOk(b, d[3])  s == One(d[1], BinRes(a, b, d[4]), Args(2)) IN
  IF kinds /\ Shape(a, b) THEN Ok(s)
  \* the shift may have another width than the base
  ELSE IF kinds /\ d[1] \in 194..196 /\ IsVec(a) = IsVec(b) /\ Dim(a) = Dim(b) THEN May(s) ELSE No

\* ---------------------------------------------------- vectors and matrices
FltVec(t) == IsVec(t) /\ IsFlt(t[2])
\* matrices: columns of a floating point vector type
Rows(m) == m[2][3]
Cols(m) == m[3]
Elem(m) == m[2][2]
VectorTimesScalar(v, c) == When(FltVec(v) /\ c = v[2], Ok(One(142, v, Args(2))))
MatrixTimesScalar(m, c) == When(IsMat(m) /\ c = Elem(m), Ok(One(143, m, Args(2))))
VectorTimesMatrix(v, m) == When(FltVec(v) /\ IsMat(m) /\ v = m[2], Ok(One(144, V(v[2], Cols(m)), Args(2))))
MatrixTimesVector(m, v) == When(FltVec(v) /\ IsMat(m) /\ Elem(m) = v[2] /\ Cols(m) = v[3], Ok(One(145, m[2], Args(2))))
MatrixTimesMatrix(l, r) == When(IsMat(l) /\ IsMat(r) /\ Elem(l) = Elem(r) /\ Cols(l) = Rows(r), Ok(One(146, M(l[2], Cols(r)), Args(2))))
OuterProduct(a, b) == When(FltVec(a) /\ FltVec(b) /\ a[2] = b[2], Ok(One(147, M(a, b[3]), Args(2))))
Dot(a, b) == When(FltVec(a) /\ a = b, Ok(One(148, a[2], Args(2))))
Transpose(m) == When(IsMat(m), Ok(One(84, M(V(Elem(m), Cols(m)), Rows(m)), Args(1))))
AnyAll(op, t) == When(IsVec(t) /\ IsBool(t[2]), Ok(One(op, B, Args(1))))
Select(c, t, f) ==
  When(t = f /\ ((c = B /\ (IsScalar(t) \/ IsPtr(t) \/ IsComposite(t))) \/ (IsVec(c) /\ IsBool(c[2]) /\ IsVec(t) /\ Dim(c) = Dim(t))), Ok(One(169, t, Args(3))))
BitInsert(b, i, o, c) == When(SV(b, "Int") /\ b = i /\ IsInt(o) /\ IsInt(c), Ok(One(201, b, Args(4))))
BitExtract(op, b, o, c) == When(SV(b, "Int") /\ IsInt(o) /\ IsInt(c), Ok(One(op, b, Args(3))))
VectorExtractDynamic(v, i) == When(IsVec(v) /\ IsInt(i), Ok(One(77, v[2], Args(2))))
VectorInsertDynamic(v, c, i) == When(IsVec(v) /\ c = v[2] /\ IsInt(i), Ok(One(78, v, Args(3))))

\* ------------------------------------------------------------- conversions
Convert(op, kind, s, t, w) == When(SV(t, kind) /\ SignOk(t, s) /\ Width(t) # w, Ok(One(op, With(t, IF kind = "Float" THEN F(w) ELSE IF s = "s" THEN I(w) ELSE U(w)), Args(1))))
Physical(t) == IsPtr(t) /\ t[2] = 5349
Bits(t) == Dim(t) * Width(t)
Bitcast(r, t) ==
  LET s == One(124, r, <<A(2)>>) IN
  IF r = t THEN No
  ELSE IF IsPtr(r) /\ IsPtr(t) THEN Ok(s)
  ELSE IF NumSV(r) /\ NumSV(t) THEN When(Bits(r) = Bits(t), Ok(s))
  \* how wide a pointer is depends on the addressing model
  ELSE IF (IsPtr(r) /\ NumSV(t)) \/ (IsPtr(t) /\ NumSV(r)) THEN May(s) ELSE No

\* ------------------------------------------------------------------ memory
RECURSIVE HasRArr(_)
HasRArr(t) == t[1] = "RArr" \/ (t[1] = "Struct" /\ \E k \in DOMAIN t[2] : HasRArr(t[2][k])) \/ (t[1] \in {"Vec", "Mat", "Arr"} /\ HasRArr(t[2]))
Load(p) == IF ~IsPtr(p) THEN No ELSE IF p[3] = Void \/ HasRArr(p[3]) THEN May(One(61, p[3], Args(1))) ELSE Ok(One(61, p[3], Args(1)))
Store(p, t) == When(IsPtr(p) /\ p[3] = t, Ok(One(62, <<>>, Args(2))))
CopyMemory(t, s) == When(IsPtr(t) /\ IsPtr(s) /\ t[3] = s[3] /\ t[3] # Void /\ ~HasRArr(t[3]), Ok(One(63, <<>>, Args(2))))
\* x: value of the size when it is a constant, -1 when it is not
CopyMemorySized(t, s, n, x) == When(IsPtr(t) /\ IsPtr(s) /\ IsInt(n) /\ (x = -1 \/ (x # 0 /\ n[3] = 0)), Ok(One(64, <<>>, Args(3))))
PtrCmp(op, a, b) == When(IsPtr(a) /\ a = b, Ok(One(op, B, Args(2))))
ArrayLength(p, x) ==
  LET st == p[3]  n == Len(st[2])  s == One(68, U(32), <<A(1), L(x)>>) IN
  IF IsPtr(p) /\ st[1] = "Struct" /\ n > 0 /\ st[2][n][1] = "RArr" THEN (IF x = n - 1 THEN Ok(s) ELSE May(s)) ELSE No
RECURSIVE PhiArgs(_)
PhiArgs(n) == IF n = 0 THEN <<>> ELSE PhiArgs(n - 1) \o <<A(n), <<"b", n>>>>
Phi(ts) == IF \A k \in DOMAIN ts : ts[k] = ts[1] THEN Ok(One(245, ts[1], PhiArgs(Len(ts)))) ELSE May(One(245, ts[1], PhiArgs(Len(ts))))
PhiDynamic(ts) == When(Len(ts) >= 2 /\ \A k \in DOMAIN ts : ts[k] = ts[1], Ok(One(245, ts[1], PhiArgs(Len(ts)))))

\* ------------------------------------------------------------------ images
\* <<"Img", sampled type, dim, depth, arrayed, ms, sampled, format, access>>
ImgOf(t) == IF IsSImg(t) THEN t[2] ELSE t
Flat2(d) == CASE d \in {0, 5} -> 1 [] d \in {1, 3, 4, 6} -> 2 [] d = 2 -> 3
\* components of a coordinate
CoordDim(d) == IF d = 3 THEN 3 ELSE Flat2(d)
Coord(i, c, proj) == NumSV(c) /\ Dim(c) >= CoordDim(i[3]) + i[5] + proj
Texel(i) == IF i[2] = Void THEN F(32) ELSE i[2]
\* channels of a format (0: Unknown)
Channels(f) == CASE f \in {1, 2, 4, 5, 10, 11, 16, 21, 22, 23, 30, 31, 32, 34, 0} -> 4 [] f = 8 -> 3 [] f \in {6, 7, 12, 13, 17, 18, 25, 26, 27, 35, 36, 37} -> 2 [] OTHER -> 1
Wide(t, n) == IF n = 1 THEN t ELSE V(t, n)

\* <<opcode, projective, operand after the coordinate, mask the helper sets>>
ImgOps == [
  opImageSampleImplictLod |-> <<87, 0, "", 0>>, opImageSampleExplicitLodLevel |-> <<88, 0, "", 2>>, opImageSampleExplicitLodGrad |-> <<88, 0, "", 4>>,
  opImageSampleProjImplictLod |-> <<91, 1, "", 0>>, opImageSampleProjExplicitLodLevel |-> <<92, 1, "", 2>>, opImageSampleProjExplicitLodGrad |-> <<92, 1, "", 4>>,
  opImageSampleDrefImplictLod |-> <<89, 0, "dref", 0>>, opImageSampleDrefExplicitLodLevel |-> <<90, 0, "dref", 2>>, opImageSampleDrefExplicitLodGrad |-> <<90, 0, "dref", 4>>,
  opImageSampleProjDrefImplictLod |-> <<93, 1, "dref", 0>>, opImageSampleProjDrefExplicitLodLevel |-> <<94, 1, "dref", 2>>, opImageSampleProjDrefExplicitLodGrad |-> <<94, 1, "dref", 4>>,
  opImageFetch |-> <<95, 0, "", 0>>, opImageGather |-> <<96, 0, "comp", 0>>, opImageDrefGather |-> <<97, 0, "dref", 0>>, opImageRead |-> <<98, 0, "", 0>>,
  opImageQueryLod |-> <<105, 0, "", 0>>]
Sampling == {87, 88, 89, 90, 91, 92, 93, 94, 96, 97, 105}
Implicit == {87, 89, 91, 93}
\* is an image operand right: "ok", "bad" or "may"; k: is it a constant
OperandRule(op, i, c, proj, mask, e, k) ==
  LET n == Dim(c) - i[5]
      exact == Dim(c) = CoordDim(i[3]) + i[5] /\ proj = 0 IN
  CASE mask = 0 -> IF e = <<>> THEN "ok" ELSE "may"
    [] mask \in {1, 2, 4, 8, 16, 64, 128} /\ e = <<>> -> "bad"
    [] mask = 1 /\ Len(e) = 1 -> IF e[1] # F(32) THEN (IF IsFlt(e[1]) THEN "may" ELSE "bad") ELSE IF op \in Implicit THEN "ok" ELSE "may"
    [] mask = 2 /\ Len(e) = 1 -> IF op = 95 THEN (IF IsInt(e[1]) THEN "ok" ELSE "bad") ELSE IF IsFlt(e[1]) THEN (IF op \in {88, 90, 92, 94} /\ e[1][2] = 32 THEN "ok" ELSE "may") ELSE "bad"
    [] mask = 4 /\ Len(e) = 2 -> IF ~(SV(e[1], "Float") /\ SV(e[2], "Float")) THEN "bad" ELSE IF ~exact THEN "may"
                                 ELSE IF Dim(e[1]) # n \/ Dim(e[2]) # n THEN "bad" ELSE IF op \in {88, 90, 92, 94} /\ Width(e[1]) = 32 /\ Width(e[2]) = 32 THEN "ok" ELSE "may"
    [] mask \in {8, 16} /\ Len(e) = 1 -> IF ~SV(e[1], "Int") \/ (mask = 8 /\ k = 0) THEN "bad" ELSE IF ~exact THEN "may" ELSE IF Dim(e[1]) # n THEN "bad" ELSE IF i[3] \in 0..2 \cup {4} /\ Width(e[1]) = 32 /\ op # 98 THEN "ok" ELSE "may"
    [] mask = 64 /\ Len(e) = 1 -> IF op \notin {95, 98, 99} \/ ~IsInt(e[1]) \/ i[6] = 0 THEN "bad" ELSE "ok"
    [] mask = 128 /\ Len(e) = 1 -> IF ~IsFlt(e[1]) THEN "bad" ELSE IF op \in Implicit /\ e[1][2] = 32 THEN "ok" ELSE "may"
    [] OTHER -> "may"
ImgRes(op, i) ==
  CASE op \in {89, 90, 93, 94} -> Texel(i)
    [] op = 98 -> IF i[2] = Void THEN V(F(32), 4) ELSE Wide(i[2], Channels(i[8]))
    [] op = 105 -> V(F(32), 2)
    [] OTHER -> V(Texel(i), 4)
ImgRule(h, ts, x) ==
  LET d == ImgOps[h]  op == d[1]  t == ts[1]  i == ImgOf(t)  c == ts[2]
      nb == IF d[3] = "" THEN 2 ELSE 3
      e == SubSeq(ts, nb + 1, Len(ts))
      mask == IF d[4] # 0 THEN d[4] ELSE x[1]
      s == One(op, ImgRes(op, i), Args(nb) \o (IF mask = 0 THEN <<>> ELSE <<L(mask)>>) \o [k \in 1..Len(e) |-> A(nb + k)])
      class == IF op \in Sampling THEN IsSImg(t) ELSE IsImg(t)
      kindOk == IF op \in {95, 98} THEN SV(c, "Int") ELSE IF op \in {88, 105} THEN NumSV(c) ELSE SV(c, "Float")
      third == d[3] = "" \/ (d[3] = "dref" /\ ts[3] = F(32)) \/ (d[3] = "comp" /\ IsInt(ts[3]) /\ ts[3][2] = 32)
      refused == ~class \/ ~kindOk \/ ~Coord(i, c, d[2]) \/ ~third
              \/ (op = 98 /\ i[7] = 1) \/ (op = 95 /\ (i[7] # 1 \/ i[3] = 3)) \/ (op \in {96, 97} /\ i[3] \notin {1, 3, 4})
      \* the array layer is not needed to query the level of detail
      open == \/ op = 105 /\ (i[3] \notin 0..3 \/ (class /\ i[5] = 1 /\ NumSV(c) /\ Dim(c) = CoordDim(i[3])) \/ SV(c, "Int"))
              \/ op = 88 /\ SV(c, "Int")
      loose == \/ op \in Sampling /\ (i[3] \in {5, 6} \/ i[6] = 1 \/ i[7] = 2)
               \/ d[2] = 1 /\ (i[3] \in {3, 5, 6} \/ i[5] = 1)
               \/ op \in {95, 98} /\ (i[6] = 1) # (mask = 64)
               \/ op = 95 /\ i[3] = 6
               \/ op \in {89, 90, 93, 94} /\ i[2] = Void
               \/ Width(c) # 32
      o == OperandRule(op, i, c, d[2], mask, e, IF Len(x) >= 2 THEN x[2] ELSE 0) IN
  IF ~class THEN No
  ELSE IF op \notin {105, 88} /\ refused THEN No
  ELSE IF op = 105 /\ open /\ (refused => Dim(c) = CoordDim(i[3])) THEN [v |-> "any", s |-> s]
  ELSE IF refused THEN No
  ELSE IF o = "bad" THEN [v |-> "bad", s |-> s]
  ELSE IF open \/ loose \/ o = "may" THEN [v |-> IF i[2] = Void /\ op \in {89, 90, 93, 94} THEN "any" ELSE "may", s |-> s] ELSE Ok(s)
ImageWrite(i, c, t) ==
  LET s == One(99, <<>>, Args(3)) IN
  IF ~IsImg(i) \/ i[7] = 1 \/ i[3] = 6 \/ ~SV(c, "Int") \/ ~Coord(i, c, 0) THEN No
  ELSE IF i[2] = Void THEN [v |-> "any", s |-> s]
  ELSE IF ~NumSV(t) \/ Comp(t) # i[2] THEN No
  ELSE IF i[6] = 1 \/ Width(c) # 32 \/ (i[8] # 0 /\ Dim(t) < Channels(i[8])) THEN May(s) ELSE Ok(s)
SampledImage(i, m) == IF ~IsImg(i) \/ m # <<"Sampler">> \/ i[7] = 2 \/ i[3] = 6 THEN No ELSE IF i[3] = 5 THEN May(One(86, <<"SImg", i>>, Args(2))) ELSE Ok(One(86, <<"SImg", i>>, Args(2)))
Image(t) == When(IsSImg(t), Ok(One(100, t[2], Args(1))))
QueryFormat(op, i) == IF ~IsImg(i) THEN No ELSE IF i[8] # 0 THEN May(One(op, U(32), Args(1))) ELSE Ok(One(op, U(32), Args(1)))
SizeType(i) == Wide(U(32), Flat2(i[3]) + i[5])
QuerySizeLod(i, l) ==
  IF ~IsImg(i) \/ ~IsInt(l) THEN No ELSE IF i[3] \notin 0..3 \/ i[6] = 1 THEN No
  ELSE IF l[3] = 1 \/ i[7] # 1 THEN May(One(103, SizeType(i), Args(2))) ELSE Ok(One(103, SizeType(i), Args(2)))
QuerySize(i) ==
  IF ~IsImg(i) THEN No ELSE IF i[3] = 5 THEN May(One(104, SizeType(i), Args(1)))
  ELSE IF i[3] \notin 0..4 \/ (i[3] # 4 /\ i[6] = 0 /\ i[7] = 1) THEN No ELSE Ok(One(104, SizeType(i), Args(1)))
QueryLevels(i) == IF ~IsImg(i) THEN No ELSE IF i[3] \notin 0..3 THEN No ELSE IF i[6] = 1 THEN May(One(106, U(32), Args(1))) ELSE Ok(One(106, U(32), Args(1)))
QuerySamples(i) == IF ~IsImg(i) THEN No ELSE When(i[3] = 1 /\ i[6] = 1, Ok(One(107, U(32), Args(1))))

Others == {"opQuantizeToF16", "opVectorTimesScalar", "opMatrixTimesScalar", "opVectorTimesMatrix", "opMatrixTimesVector", "opMatrixTimesMatrix", "opOuterProduct", "opDot", "opTranspose", "opAny", "opAll", "opSelect",
  "opBitFieldInsert", "opBitFieldSExtract", "opBitFieldUExtract", "opCopyObject", "opVectorExtractDynamic", "opVectorInsertDynamic", "opUConvert", "opSConvert", "opFConvert", "opConvertPtrToU", "opConvertUToPtr", "opBitcast",
  "opUndef", "opSizeOf", "opLoad", "opStore", "opCopyMemory", "opCopyMemorySized", "opPtrEqual", "opPtrNotEqual", "opArrayLength", "opPhi", "opPhiDynamic", "opEmitVertex", "opEndPrimitive", "opEmitStreamVertex", "opEndStreamPrimitive",
  "opImageWrite", "opSampledImage", "opImage", "opImageQueryFormat", "opImageQueryOrder", "opImageQuerySizeLod", "opImageQuerySize", "opImageQueryLevels", "opImageQuerySamples"}
Helpers == DOMAIN UnOps \cup DOMAIN BinOps \cup DOMAIN ImgOps \cup Others
\* h requested with operands of types ts (types requested come first) and numbers x
Rule(h, ts, x) ==
  CASE h \in DOMAIN UnOps -> Un(h, ts[1])
    [] h \in DOMAIN BinOps -> Bin(h, ts[1], ts[2])
    [] h \in DOMAIN ImgOps -> ImgRule(h, ts, x)
    [] h = "opQuantizeToF16" -> When(SV(ts[1], "Float") /\ Width(ts[1]) = 32, Ok(One(116, ts[1], Args(1))))
    [] h = "opVectorTimesScalar" -> VectorTimesScalar(ts[1], ts[2])
    [] h = "opMatrixTimesScalar" -> MatrixTimesScalar(ts[1], ts[2])
    [] h = "opVectorTimesMatrix" -> VectorTimesMatrix(ts[1], ts[2])
    [] h = "opMatrixTimesVector" -> MatrixTimesVector(ts[1], ts[2])
    [] h = "opMatrixTimesMatrix" -> MatrixTimesMatrix(ts[1], ts[2])
    [] h = "opOuterProduct" -> OuterProduct(ts[1], ts[2])
    [] h = "opDot" -> Dot(ts[1], ts[2])
    [] h = "opTranspose" -> Transpose(ts[1])
    [] h = "opAny" -> AnyAll(154, ts[1])
    [] h = "opAll" -> AnyAll(155, ts[1])
    [] h = "opSelect" -> Select(ts[1], ts[2], ts[3])
    [] h = "opBitFieldInsert" -> BitInsert(ts[1], ts[2], ts[3], ts[4])
    [] h = "opBitFieldSExtract" -> BitExtract(202, ts[1], ts[2], ts[3])
    [] h = "opBitFieldUExtract" -> BitExtract(203, ts[1], ts[2], ts[3])
    [] h = "opCopyObject" -> Ok(One(83, ts[1], Args(1)))
    [] h = "opVectorExtractDynamic" -> VectorExtractDynamic(ts[1], ts[2])
    [] h = "opVectorInsertDynamic" -> VectorInsertDynamic(ts[1], ts[2], ts[3])
    [] h = "opUConvert" -> Convert(113, "Int", "u", ts[1], x[1])
    [] h = "opSConvert" -> Convert(114, "Int", "s", ts[1], x[1])
    [] h = "opFConvert" -> Convert(115, "Float", "", ts[1], x[1])
    [] h = "opConvertPtrToU" -> When(Physical(ts[1]), Ok(One(117, U(x[1]), Args(1))))
    [] h = "opConvertUToPtr" -> When(Physical(ts[1]) /\ Unsigned(ts[2]) /\ IsInt(ts[2]), Ok(One(120, ts[1], <<A(2)>>)))
    [] h = "opBitcast" -> Bitcast(ts[1], ts[2])
    [] h = "opUndef" -> Ok(One(1, ts[1], <<>>))
    [] h = "opSizeOf" -> When(IsPtr(ts[1]), Ok(One(321, U(32), Args(1))))
    [] h = "opLoad" -> Load(ts[1])
    [] h = "opStore" -> Store(ts[1], ts[2])
    [] h = "opCopyMemory" -> CopyMemory(ts[1], ts[2])
    [] h = "opCopyMemorySized" -> CopyMemorySized(ts[1], ts[2], ts[3], x[1])
    [] h = "opPtrEqual" -> PtrCmp(401, ts[1], ts[2])
    [] h = "opPtrNotEqual" -> PtrCmp(402, ts[1], ts[2])
    [] h = "opArrayLength" -> ArrayLength(ts[1], x[1])
    [] h = "opPhi" -> Phi(ts)
    [] h = "opPhiDynamic" -> PhiDynamic(ts)
    [] h = "opEmitVertex" -> Ok(One(218, <<>>, <<>>))
    [] h = "opEndPrimitive" -> Ok(One(219, <<>>, <<>>))
    \* x: is the operand a constant
    [] h = "opEmitStreamVertex" -> When(IsInt(ts[1]) /\ x[1] = 1, Ok(One(220, <<>>, Args(1))))
    [] h = "opEndStreamPrimitive" -> When(IsInt(ts[1]) /\ x[1] = 1, Ok(One(221, <<>>, Args(1))))
    [] h = "opImageWrite" -> ImageWrite(ts[1], ts[2], ts[3])
    [] h = "opSampledImage" -> SampledImage(ts[1], ts[2])
    [] h = "opImage" -> Image(ts[1])
    [] h = "opImageQueryFormat" -> QueryFormat(101, ts[1])
    [] h = "opImageQueryOrder" -> QueryFormat(102, ts[1])
    [] h = "opImageQuerySizeLod" -> QuerySizeLod(ts[1], ts[2])
    [] h = "opImageQuerySize" -> QuerySize(ts[1])
    [] h = "opImageQueryLevels" -> QueryLevels(ts[1])
    [] h = "opImageQuerySamples" -> QuerySamples(ts[1])

\* ------------------------------------------------------------------- answers
\* memory operands: no mask is the mask None
Same1(got, want) ==
  /\ got[1] = want[1] /\ got[2] = want[2]
  /\ got[3] = want[3] \/ (want[1] \in {61, 62} /\ got[3] = want[3] \o <<L(0)>>)
SameAll(got, want) == Len(got) = Len(want) /\ \A k \in DOMAIN got : Same1(got[k], want[k])
\* e: [err: refused, logs: complaints, new: instructions added]
Emits(r, e) == CASE r.v = "ok" -> ~e.err /\ SameAll(e.new, r.s)
                 [] r.v = "may" -> e.err \/ SameAll(e.new, r.s)
                 [] r.v \in {"any", "bad"} -> TRUE
                 [] r.v = "no" -> TRUE
Decides(r, e) == CASE r.v = "ok" -> ~e.err /\ e.logs = 0
                   [] r.v = "no" -> e.err /\ e.logs > 0 /\ e.new = <<>>
                   [] r.v = "bad" -> e.logs > 0
                   [] r.v = "may" -> IF e.err THEN e.logs > 0 /\ e.new = <<>> ELSE TRUE
                   [] r.v = "any" -> TRUE

\* --------------------------------------- requests made without the helpers
\* operations whose result type follows from the types of their operands
Inferable == {321, 126, 135, 138, 139, 68, 204, 205, 201, 202, 203, 118, 119, 200} \cup (127..134) \cup {136, 137, 140, 141} \cup (194..199) \cup (207..215) \cup (142..152) \cup {84, 77, 78, 83}
  \cup {154, 155, 401, 402} \cup (156..160) \cup (162..191) \cup {245, 86, 169, 100} \cup (87..98) \cup (101..107) \cup (109..112)
\* the result type of an operation is told by the operation alone or by a width that is not among its operands
Untold == {1, 113, 115, 116, 117, 120, 124, 61, 321} \ Inferable
RawEmits(r, e) == IF r.v = "ok" /\ r.s[1][1] \in Inferable THEN ~e.err /\ SameAll(e.new, r.s) ELSE TRUE
RawDecides(r, e) == IF r.v # "ok" THEN TRUE ELSE IF r.s[1][1] \in Inferable THEN ~e.err /\ e.logs = 0 ELSE IF r.s[1][1] \in Untold THEN e.logs > 0 ELSE TRUE

\* ------------------------------------------- operands of a given instruction
\* slots: "type" a type, "value" an operation with a result, "null" no instruction, "error" what a refused request returned, "self" the instruction itself,
\* "id" a place for the result, "lit" a number, "block" a block, "noblock" no block
Layouts == [t \in {128, 62, 20, 249, 248, 83, 43} |-> CASE t \in {128, 83, 43} -> "typed" [] t \in {20, 248} -> "named" [] OTHER -> "plain"]
Slots == {"type", "value", "null", "error", "self", "id", "lit", "block", "noblock"}
Sound(op, s) ==
  LET sh == Layouts[op]  first == CASE sh = "typed" -> 3 [] sh = "named" -> 2 [] OTHER -> 1 IN
  /\ sh = "typed" => (Len(s) >= 2 /\ s[1] = "type" /\ s[2] = "id")
  /\ sh = "named" => (Len(s) >= 1 /\ s[1] = "id")
  /\ \A k \in DOMAIN s : k >= first => s[k] \notin {"null", "error", "self", "noblock"}
===============================================================================
