--------------------------------- MODULE Glsl ---------------------------------
(* The extended instruction set GLSL.std.450: the number of every function, what *)
(* types it is defined for and the type of its result.                           *)
EXTENDS Typing
\* number, shape of the function, further condition
Fns == [
  opRound |-> <<1, "f1", "">>, opRoundEven |-> <<2, "f1", "">>, opTrunc |-> <<3, "f1", "">>, opFAbs |-> <<4, "f1", "">>, opSAbs |-> <<5, "i1", "s">>, opFSign |-> <<6, "f1", "">>, opSSign |-> <<7, "i1", "s">>,
  opFloor |-> <<8, "f1", "">>, opCeil |-> <<9, "f1", "">>, opFract |-> <<10, "f1", "">>,
  opRadians |-> <<11, "f1", "32">>, opDegrees |-> <<12, "f1", "32">>, opSin |-> <<13, "f1", "32">>, opCos |-> <<14, "f1", "32">>, opTan |-> <<15, "f1", "32">>, opASin |-> <<16, "f1", "32">>, opACos |-> <<17, "f1", "32">>, opATan |-> <<18, "f1", "32">>,
  opSinh |-> <<19, "f1", "32">>, opCosh |-> <<20, "f1", "32">>, opTanh |-> <<21, "f1", "32">>, opAsinh |-> <<22, "f1", "32">>, opAcosh |-> <<23, "f1", "32">>, opAtanh |-> <<24, "f1", "32">>, opAtan2 |-> <<25, "f2", "32">>,
  opPow |-> <<26, "f2", "32">>, opExp |-> <<27, "f1", "32">>, opLog |-> <<28, "f1", "32">>, opExp2 |-> <<29, "f1", "32">>, opLog2 |-> <<30, "f1", "32">>, opSqrt |-> <<31, "f1", "">>, opInverseSqrt |-> <<32, "f1", "">>,
  opDeterminant |-> <<33, "det", "">>, opMatrixInverse |-> <<34, "inv", "">>, opModfStruct |-> <<36, "modf", "">>,
  opFMin |-> <<37, "f2", "">>, opUMin |-> <<38, "i2", "u">>, opSMin |-> <<39, "i2", "s">>, opFMax |-> <<40, "f2", "">>, opUMax |-> <<41, "i2", "u">>, opSMax |-> <<42, "i2", "s">>,
  opFClamp |-> <<43, "f3", "">>, opUClamp |-> <<44, "i3", "u">>, opSClamp |-> <<45, "i3", "s">>, opFMix |-> <<46, "f3", "">>, opStep |-> <<48, "f2", "">>, opSmoothStep |-> <<49, "f3", "">>, opFma |-> <<50, "f3", "">>,
  opFrexpStruct |-> <<52, "frexp", "">>, opLdexp |-> <<53, "ldexp", "">>,
  opPackSnorm4x8 |-> <<54, "pack", 4>>, opPackUnorm4x8 |-> <<55, "pack", 4>>, opPackSnorm2x16 |-> <<56, "pack", 2>>, opPackUnorm2x16 |-> <<57, "pack", 2>>, opPackHalf2x16 |-> <<58, "pack", 2>>, opPackDouble2x32 |-> <<59, "packd", "">>,
  opUnpackSnorm2x16 |-> <<60, "unpack", 2>>, opUnpackUnorm2x16 |-> <<61, "unpack", 2>>, opUnpackHalf2x16 |-> <<62, "unpack", 2>>, opUnpackSnorm4x8 |-> <<63, "unpack", 4>>, opUnpackUnorm4x8 |-> <<64, "unpack", 4>>, opUnpackDouble2x32 |-> <<65, "unpackd", "">>,
  opLength |-> <<66, "length", "">>, opDistance |-> <<67, "distance", "">>, opCross |-> <<68, "cross", "">>, opNormalize |-> <<69, "f1", "">>, opFaceForward |-> <<70, "f3", "">>, opReflect |-> <<71, "f2", "">>, opRefract |-> <<72, "refract", "">>,
  opFindILsb |-> <<73, "i1", "32">>, opFindSMsb |-> <<74, "i1", "32">>, opFindUMsb |-> <<75, "i1", "32">>,
  opInterpolateAtCentroid |-> <<76, "interpolate", "">>, opInterpolateAtSample |-> <<77, "interpolate", "sample">>, opInterpolateAtOffset |-> <<78, "interpolate", "offset">>,
  opNMin |-> <<79, "f2", "">>, opNMax |-> <<80, "f2", "">>, opNClamp |-> <<81, "f3", "">>]
Functions == DOMAIN Fns
Arity(h) == LET k == Fns[h][2] IN CASE k \in {"f2", "i2", "ldexp", "distance", "cross"} -> 2 [] k \in {"f3", "i3", "refract"} -> 3 [] k = "interpolate" /\ Fns[h][3] # "" -> 2 [] OTHER -> 1
Ext(n, t, k) == One(12, t, <<<<"import">>, L(n)>> \o Args(k))
Equal(ts) == \A k \in DOMAIN ts : ts[k] = ts[1]
Square(m) == IsMat(m) /\ Cols(m) = Rows(m)
GlslRule(h, ts) ==
  LET d == Fns[h]  n == d[1]  k == d[2]  c == d[3]  t == ts[1]  flt == SV(t, "Float")  u == IF Len(ts) > 1 THEN ts[2] ELSE t
      Is(x, r) == When(x, Ok(Ext(n, r, Len(ts)))) IN
  CASE k \in {"f1", "f2", "f3"} -> Is(flt /\ Equal(ts) /\ (c = "32" => Width(t) # 64), t)
    [] k \in {"i1", "i2", "i3"} -> Is(SV(t, "Int") /\ Equal(ts) /\ (c = "s" => Signed(t)) /\ (c = "u" => Unsigned(t)) /\ (c = "32" => Width(t) = 32), t)
    [] k = "det" -> IF Square(t) THEN Ok(Ext(n, Elem(t), 1)) ELSE No
    [] k = "inv" -> Is(Square(t), t)
    [] k = "modf" -> Is(flt, <<"Struct", <<t, t>>>>)
    [] k = "frexp" -> Is(flt, <<"Struct", <<t, With(t, I(32))>>>>)
    [] k = "ldexp" -> Is(flt /\ SV(u, "Int") /\ IsVec(t) = IsVec(u) /\ Dim(t) = Dim(u), t)
    [] k = "pack" -> Is(t = V(F(32), c), I(32))
    [] k = "packd" -> Is(t \in {V(I(32), 2), V(U(32), 2)}, F(64))
    [] k = "unpack" -> Is(t \in {I(32), U(32)}, V(F(32), c))
    [] k = "unpackd" -> Is(t = F(64), V(I(32), 2))
    [] k = "length" -> Is(flt, Comp(t))
    [] k = "distance" -> Is(flt /\ t = u, Comp(t))
    [] k = "cross" -> Is(flt /\ t = u /\ IsVec(t) /\ Dim(t) = 3, t)
    \* the ratio is of 16 or 32 bits
    [] k = "refract" -> LET s == Ext(n, t, 3) IN
         IF ~(flt /\ t = u /\ ts[3] = Comp(t)) THEN No ELSE IF ts[3] = F(64) THEN May(s) ELSE Ok(s)
    [] k = "interpolate" -> LET s == Ext(n, t[3], Len(ts)) IN
         IF ~(IsPtr(t) /\ t[2] = 1) THEN No
         ELSE Is(t[3] = With(t[3], F(32)) /\ (c = "sample" => u \in {I(32), U(32)}) /\ (c = "offset" => u = V(F(32), 2)), t[3])
===============================================================================
