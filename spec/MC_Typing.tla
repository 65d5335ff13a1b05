------------------------------ MODULE MC_Typing ------------------------------
(* Every operation requested with operands of every combination of types of a   *)
(* universe; the rules agree with each other and yield proper types.            *)
EXTENDS Typing, Json
CONSTANTS Group, Emit
VARIABLES want, req
vars == <<want, req>>
St(s) == <<"Struct", s>>
Arr(t, n) == <<"Arr", t, n>>
Ptr(c, t) == <<"Ptr", c, t>>
F32 == F(32)  I32 == I(32)  U32 == U(32)
Img(t, d, ar, ms, sa, fm) == <<"Img", t, d, 0, ar, ms, sa, fm, -1>>
SImg(i) == <<"SImg", i>>
Smp == <<"Sampler">>
Ints == {I(w) : w \in {8, 16, 32, 64}} \cup {U(w) : w \in {8, 16, 32, 64}}
Flts == {F(16), F32, F(64)}
Vecs == {V(t, n) : t \in {B, I32, U32, F32}, n \in {2, 3, 4}} \cup {V(F(16), 2), V(F(64), 3), V(I(64), 2), V(U(16), 4), V(I(8), 3), V(U(64), 3)}
Mats == {M(V(F32, r), c) : r, c \in {2, 3, 4}} \cup {M(V(F(64), 2), 2), M(V(F(16), 2), 2), M(V(F(64), 2), 3)}
Aggr == {St(<<F32>>), St(<<F32, I32>>), Arr(F32, 2), Arr(I32, 3)}
Ptrs == {Ptr(7, F32), Ptr(7, I32), Ptr(6, F32), Ptr(5349, F32), Ptr(7, V(F32, 2))}
Opaque == {Smp, Img(F32, 1, 0, 0, 1, 0), SImg(Img(F32, 1, 0, 0, 1, 0))}
All == {B} \cup Ints \cup Flts \cup Vecs \cup Mats \cup Aggr \cup Ptrs \cup Opaque
Two == {B, I32, U32, I(64), U(16), F(16), F32, F(64), V(B, 2), V(B, 3), V(I32, 2), V(I32, 3), V(U32, 2), V(U32, 3), V(F32, 2), V(F32, 3), V(F(64), 2), V(I(64), 2), M(V(F32, 2), 2), M(V(F32, 2), 3), St(<<F32, I32>>), Arr(F32, 2), Ptr(7, F32), Img(F32, 1, 0, 0, 1, 0)}
Few == {B, I32, U32, I(64), F32, F(64), V(I32, 2), V(F32, 2), V(F32, 3), V(B, 2), M(V(F32, 2), 2), Ptr(7, F32)}
Algebra == Mats \cup {V(F32, n) : n \in {2, 3, 4}} \cup {V(F(64), 2), V(F(64), 3), V(F(16), 2), V(I32, 2), V(I32, 3), F32, F(64), F(16), I32, B, V(B, 2), Ptr(7, F32), Arr(V(F32, 2), 2), Arr(F32, 2), St(<<F32, F32>>), Img(F32, 1, 0, 0, 1, 0)}
------------------------------------------------------------------------------
On(S) == S \cap {want}
Ask(h, ts, x) == want = h /\ req = <<>> /\ req' = <<h, ts, x>> /\ want' = want
Init == want \in Helpers \cup {"operands"} /\ req = <<>>
AskUn == Group = "un" /\ \E h \in On(DOMAIN UnOps \cup {"opQuantizeToF16", "opAny", "opAll", "opCopyObject", "opTranspose", "opUndef", "opImage", "opImageQueryLevels", "opImageQuerySamples", "opImageQuerySize", "opImageQueryFormat", "opImageQueryOrder", "opSizeOf", "opLoad"}), t \in All : Ask(h, <<t>>, <<>>)
AskConv == Group = "un" /\ \E h \in On({"opUConvert", "opSConvert", "opFConvert"}), t \in All, w \in {8, 16, 32, 64} : (h = "opFConvert" => w # 8) /\ Ask(h, <<t>>, <<w>>)
AskPtrConv == Group = "un" /\ \/ \E t \in All, w \in {16, 32, 64} : Ask("opConvertPtrToU", <<t>>, <<w>>)
                              \/ \E r \in Ptrs \cup {F32, U32}, t \in All : Ask("opConvertUToPtr", <<r, t>>, <<>>)
AskBin == Group = "bin" /\ \E h \in On(DOMAIN BinOps), a, b \in Two : Ask(h, <<a, b>>, <<>>)
AskAlgebra == Group = "un" /\ \E h \in On({"opVectorTimesScalar", "opMatrixTimesScalar", "opVectorTimesMatrix", "opMatrixTimesVector", "opMatrixTimesMatrix", "opOuterProduct", "opDot"}), a, b \in Algebra : Ask(h, <<a, b>>, <<>>)
AskCast == Group = "un" /\ \E r, t \in Two \cup {V(U(16), 4), V(F(16), 2), U(64), Ptr(7, I32), Ptr(6, F32), V(U32, 4), V(F(64), 2), I(16)} : Ask("opBitcast", <<r, t>>, <<>>)
AskExtract == Group = "un" /\ \/ \E v \in All, i \in {I32, U32, I(64), U(16), F32, B, V(I32, 2)} : Ask("opVectorExtractDynamic", <<v, i>>, <<>>)
                              \/ \E v \in Vecs \cup {F32, M(V(F32, 2), 2), Arr(F32, 2), St(<<F32, F32>>), Ptr(7, F32)}, c \in Few, i \in {I32, U(16), F32, B, V(I32, 2)} : Ask("opVectorInsertDynamic", <<v, c, i>>, <<>>)
AskSelect == Group = "tri" /\ \E c \in {B, V(B, 2), V(B, 3), I32, V(I32, 2), Ptr(7, F32)}, t, f \in Two \cup {Ptr(7, I32), St(<<F32>>)} : Ask("opSelect", <<c, t, f>>, <<>>)
AskBits == Group = "tri" /\ \/ \E a, b \in {I32, U32, I(64), V(I32, 2), V(U32, 2), V(I32, 3), F32, B, V(F32, 2), M(V(F32, 2), 2), Ptr(7, I32)}, o, c \in {I32, U32, U(16), F32, V(I32, 2), B} : Ask("opBitFieldInsert", <<a, b, o, c>>, <<>>)
                            \/ \E h \in On({"opBitFieldSExtract", "opBitFieldUExtract"}), a \in Two, o, c \in {I32, U32, U(16), F32, V(I32, 2), B} : Ask(h, <<a, o, c>>, <<>>)
Mem == Ptrs \cup {Ptr(7, t) : t \in {B, V(F32, 3), M(V(F32, 2), 2), St(<<F32>>), Arr(F32, 2), Ptr(7, F32), St(<<I32, <<"RArr", F32>>>>), <<"RArr", F32>>}} \cup {Ptr(c, F32) : c \in {1, 2, 3, 4, 9, 12}} \cup {Ptr(0, Smp), Ptr(0, Img(F32, 1, 0, 0, 1, 0))} \cup {F32, I32, St(<<F32>>)}
AskMemory == Group = "tri" /\ \/ \E p \in Mem : \E h \in On({"opLoad", "opSizeOf", "opCopyObject"}) : Ask(h, <<p>>, <<>>)
                              \/ \E p \in Mem, t \in Few \cup {St(<<F32>>), Arr(F32, 2), V(F32, 3)} : Ask("opStore", <<p, t>>, <<>>)
                              \/ \E p, q \in Mem : \E h \in On({"opCopyMemory", "opPtrEqual", "opPtrNotEqual"}) : Ask(h, <<p, q>>, <<>>)
                              \/ \E p, q \in {Ptr(7, F32), Ptr(7, I32), Ptr(6, F32), Ptr(7, V(F32, 3)), F32, I32}, n \in {I32, U32, U(64), F32, V(U32, 2), B}, x \in {-1, 0, 4} : (x # -1 => n[1] = "Int" /\ n[2] = 32) /\ Ask("opCopyMemorySized", <<p, q, n>>, <<x>>)
AskLength == Group = "tri" /\ \E p \in Mem \cup {Ptr(c, St(s \o <<<<"RArr", F32>>>>)) : c \in {2, 12}, s \in {<<>>, <<F32>>, <<I32, V(F32, 4)>>}} \cup {Ptr(12, St(<<>>)), Ptr(12, St(<<F32, Arr(F32, 2)>>)), St(<<<<"RArr", F32>>>>)}, x \in 0..2 : Ask("opArrayLength", <<p>>, <<x>>)
AskPhi == Group = "tri" /\ \E h \in On({"opPhi", "opPhiDynamic"}), n \in 1..3, t \in Few, u \in Few : Ask(h, IF n = 1 THEN <<t>> ELSE IF n = 2 THEN <<t, u>> ELSE <<t, t, u>>, <<>>)
AskEmit == Group = "tri" /\ \/ \E h \in On({"opEmitVertex", "opEndPrimitive"}) : Ask(h, <<>>, <<>>)
                            \/ \E h \in On({"opEmitStreamVertex", "opEndStreamPrimitive"}), t \in Few, x \in {0, 1} : (x = 1 => t[1] \in {"Int", "Float", "Bool"}) /\ Ask(h, <<t>>, <<x>>)

\* images of every shape; coordinates of every length
Shapes == {Img(F32, d, ar, ms, sa, 0) : d \in 0..6, ar \in {0, 1}, ms \in {0, 1}, sa \in {0, 1, 2}}
Kinds == {Img(t, d, 0, 0, sa, 0) : t \in {I32, U32, Void, F(64)}, d \in {1, 2}, sa \in {1, 2}}
Formats == {Img(t, 1, 0, 0, 2, fm) : t \in {F32, I32}, fm \in 0..39}
Depths == {[Img(F32, d, ar, 0, 1, 0) EXCEPT ![4] = dp] : d \in {0, 1, 3}, ar \in {0, 1}, dp \in {1, 2}}
Images == Shapes \cup Kinds \cup Depths
Coords == {F32, V(F32, 2), V(F32, 3), V(F32, 4), I32, V(I32, 2), V(I32, 3), V(I32, 4), V(U32, 3), U32, B, V(B, 3)}
Odd == {F32, M(V(F32, 2), 2), Ptr(7, F32), Smp, V(F32, 4)}
Tail3 == [opImageSampleExplicitLodLevel |-> <<F32>>, opImageSampleProjExplicitLodLevel |-> <<F32>>, opImageSampleDrefExplicitLodLevel |-> <<F32, F32>>, opImageSampleProjDrefExplicitLodLevel |-> <<F32, F32>>,
          opImageSampleDrefImplictLod |-> <<F32>>, opImageSampleProjDrefImplictLod |-> <<F32>>, opImageGather |-> <<I32>>, opImageDrefGather |-> <<F32>>]
GradOf(c, i) == LET n == Dim(c) - ImgOf(i)[5] IN IF n <= 1 THEN F32 ELSE V(F32, n)
IsGrad(h) == ImgOps[h][4] = 4
TailOf(h, i, c) == (IF h \in DOMAIN Tail3 THEN Tail3[h] ELSE IF ImgOps[h][3] = "dref" THEN <<F32>> ELSE <<>>) \o (IF IsGrad(h) THEN <<GradOf(c, i), GradOf(c, i)>> ELSE <<>>)
ClassOf(h, i) == IF ImgOps[h][1] \in Sampling THEN SImg(i) ELSE i
AskImg == Group = "img" /\ \E h \in On(DOMAIN ImgOps), i \in Images, c \in Coords : Ask(h, <<ClassOf(h, i), c>> \o TailOf(h, i, c), <<0, 0>>)
AskOddImg == Group = "img" /\ \E h \in On(DOMAIN ImgOps) : \/ \E i \in Odd, c \in {F32, V(F32, 2), I32} : Ask(h, <<i, c>> \o TailOf(h, Img(F32, 1, 0, 0, 1, 0), c), <<0, 0>>)
                                                       \/ LET i == Img(F32, 1, 0, 0, 1, 0) IN \E c \in {V(F32, 2), V(I32, 2)} : Ask(h, <<IF ClassOf(h, i) = i THEN SImg(i) ELSE i, c>> \o TailOf(h, i, c), <<0, 0>>)
AskThird == Group = "img" /\ \E h \in On(DOMAIN ImgOps), t \in {F32, F(64), F(16), I32, U32, U(64), B, V(F32, 2), Ptr(7, F32)} : ImgOps[h][3] # "" /\ LET i == Img(F32, 1, 0, 0, 1, 0)  c == V(F32, 2 + ImgOps[h][2])  r == TailOf(h, i, c) IN Ask(h, <<SImg(i), c, t>> \o Tail(r), <<0, 0>>)
AskRead == Group = "img" /\ \E i \in Formats, c \in {V(I32, 2), V(U32, 3), V(F32, 2), I32} : Ask("opImageRead", <<i, c>>, <<0, 0>>)
\* further operands
Extra == {F32, I32, U32, F(64), B, V(F32, 2), V(F32, 3), V(I32, 2), V(I32, 3), V(I32, 1 + 3), V(F32, 4)}
SomeImages == {Img(F32, d, ar, 0, sa, 0) : d \in {0, 1, 2, 3}, ar \in {0, 1}, sa \in {1}} \cup {Img(F32, 1, 0, 1, 1, 0), Img(F32, 1, 0, 1, 2, 0), Img(F32, 1, 0, 0, 2, 0)}
Right(h, i) == LET n == CoordDim(i[3]) + i[5] + ImgOps[h][2]  t == IF ImgOps[h][1] \in {95, 98} THEN I32 ELSE F32 IN IF n = 1 THEN t ELSE V(t, n)
AskExtra == Group = "img2" /\ \E h \in On(DOMAIN ImgOps \ {"opImageQueryLod"}), i \in SomeImages, m \in {1, 2, 8, 16, 64, 128}, t \in Extra, k \in {0, 1} :
              ImgOps[h][4] = 0 /\ CoordDim(i[3]) + i[5] + ImgOps[h][2] <= 4 /\ (k = 1 => m \in {8, 16, 64} /\ NumSV(t)) /\ Ask(h, <<ClassOf(h, i), Right(h, i)>> \o TailOf(h, i, V(F32, 2)) \o <<t>>, <<m, k>>)
AskNone == Group = "img2" /\ \E h \in On(DOMAIN ImgOps \ {"opImageQueryLod"}), m \in {1, 2, 4, 8, 16, 64, 128} : ImgOps[h][4] = 0 /\ LET i == Img(F32, 1, 0, 1, IF ImgOps[h][1] = 98 THEN 2 ELSE 1, 0) IN Ask(h, <<ClassOf(h, i), Right(h, i)>> \o TailOf(h, i, V(F32, 2)), <<m, 0>>)
AskLevel == Group = "img2" /\ \E h \in On(DOMAIN ImgOps), i \in SomeImages, t \in Extra : ImgOps[h][4] = 2 /\ CoordDim(i[3]) + i[5] + ImgOps[h][2] <= 4 /\ Ask(h, <<SImg(i), Right(h, i)>> \o (IF ImgOps[h][3] = "dref" THEN <<F32>> ELSE <<>>) \o <<t>>, <<0, 0>>)
AskGrad == Group = "img2" /\ \E h \in On(DOMAIN ImgOps), i \in SomeImages, t, u \in Extra : IsGrad(h) /\ CoordDim(i[3]) + i[5] + ImgOps[h][2] <= 4 /\ Ask(h, <<SImg(i), Right(h, i)>> \o (IF ImgOps[h][3] = "dref" THEN <<F32>> ELSE <<>>) \o <<t, u>>, <<0, 0>>)
AskWrite == Group = "img2" /\ \/ \E i \in {j \in Shapes : j[7] = 2} \cup {Img(F32, 1, 0, 0, 1, 0)}, c \in Coords, t \in {F32, V(F32, 4)} : Ask("opImageWrite", <<i, c, t>>, <<>>)
                              \/ \E i \in {j \in Kinds : j[7] = 2} \cup Formats \cup Odd, t \in {F32, V(F32, 2), V(F32, 3), V(F32, 4), I32, V(I32, 4), U32, V(U32, 4), F(64), V(F(64), 3), V(F(16), 2), B, St(<<F32>>), V(B, 2)} : Ask("opImageWrite", <<i, IF ImgOf(i)[1] = "Img" /\ ImgOf(i)[3] = 2 THEN V(I32, 3) ELSE V(I32, 2), t>>, <<>>)
AskQuery == Group = "img2" /\ \/ \E h \in On({"opImageQueryFormat", "opImageQueryOrder", "opImageQuerySize", "opImageQueryLevels", "opImageQuerySamples"}), i \in Images \cup Formats \cup Odd \cup {SImg(Img(F32, 1, 0, 0, 1, 0))} : Ask(h, <<i>>, <<>>)
                              \/ \E i \in Images \cup Odd, l \in {I32, U32, F32, V(I32, 2), B} : Ask("opImageQuerySizeLod", <<i, l>>, <<>>)
                              \/ \E i \in Images \cup Odd \cup {SImg(Img(F32, 1, 0, 0, 1, 0))}, s \in {Smp, F32, Img(F32, 1, 0, 0, 1, 0)} : Ask("opSampledImage", <<i, s>>, <<>>)
                              \/ \E i \in Images \cup Odd : Ask("opImage", <<IF IsImg(i) THEN SImg(i) ELSE i>>, <<>>)
AskOperands == Group = "ops" /\ \E op \in DOMAIN Layouts, n \in 0..3 : \E s \in [1..n -> Slots] : Ask("operands", s, <<op>>)
AskMore == Group = "ops" /\ \E op \in DOMAIN Layouts, s \in {<<"type", "id">>, <<"id">>, <<"value">>}, a, b \in Slots : Ask("operands", s \o <<a, b>>, <<op>>)
Next == AskUn \/ AskConv \/ AskPtrConv \/ AskBin \/ AskAlgebra \/ AskCast \/ AskExtract \/ AskSelect \/ AskBits \/ AskMemory \/ AskLength \/ AskPhi \/ AskEmit \/ AskImg \/ AskOddImg \/ AskThird \/ AskRead \/ AskExtra \/ AskNone \/ AskLevel \/ AskGrad \/ AskWrite \/ AskQuery \/ AskOperands \/ AskMore
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
\* what is added has a type that can be declared
RECURSIVE Wf(_)
Wf(t) == CASE t[1] = "Int" -> t[2] \in {8, 16, 32, 64} /\ t[3] \in {0, 1} [] t[1] = "Float" -> t[2] \in {16, 32, 64} [] t[1] = "Vec" -> IsScalar(t[2]) /\ t[3] \in 2..4
           [] t[1] = "Mat" -> FltVec(t[2]) /\ t[3] \in 2..4 [] t[1] \in {"Ptr"} -> Wf(t[3]) [] t[1] = "Struct" -> \A k \in DOMAIN t[2] : Wf(t[2][k]) [] OTHER -> TRUE
Asked == req # <<>>
R == Rule(req[1], req[2], req[3])
Proper == Asked /\ Group # "ops" => (R.v \in {"ok", "may", "no", "any", "bad"} /\ (R.v = "ok" => Len(R.s) = 1 /\ (R.s[1][2] = <<>> \/ Wf(R.s[1][2]))) /\ (R.v = "no" => R.s = <<>>))
Res(r) == r.s[1][2]
\* laws that tie the rules together
Laws == Asked /\ Group # "ops" =>
  LET h == req[1]  ts == req[2] IN
  /\ h = "opTranspose" /\ R.v = "ok" => Res(Transpose(Res(R))) = ts[1]
  /\ h = "opMatrixTimesMatrix" /\ R.v = "ok" => \A n \in 2..4 : LET v == V(Elem(ts[1]), n)  bv == MatrixTimesVector(ts[2], v)  abv == MatrixTimesVector(Res(R), v) IN bv.v = abv.v /\ (bv.v = "ok" => Res(MatrixTimesVector(ts[1], Res(bv))) = Res(abv))
  /\ h = "opVectorTimesMatrix" => LET t == MatrixTimesVector(IF IsMat(ts[2]) THEN Res(Transpose(ts[2])) ELSE ts[2], ts[1]) IN t.v = R.v /\ (R.v = "ok" => Res(t) = Res(R))
  /\ h = "opOuterProduct" /\ R.v = "ok" => Rows(Res(R)) = Dim(ts[1]) /\ Cols(Res(R)) = Dim(ts[2]) /\ Res(Transpose(Res(R))) = Res(OuterProduct(ts[2], ts[1]))
  /\ h = "opDot" /\ R.v = "ok" => Res(R) = Elem(Res(OuterProduct(ts[1], ts[2])))
  /\ h = "opBitcast" /\ R.v = "ok" => Bitcast(ts[2], ts[1]).v = "ok"
  /\ h \in DOMAIN BinOps => Rule(h, <<ts[2], ts[1]>>, <<>>).v = R.v
  /\ h \in DOMAIN BinOps /\ R.v = "ok" => Dim(Res(R)) = Dim(ts[1]) \/ Res(R)[1] = "Struct"
  /\ h \in DOMAIN ImgOps /\ R.v = "ok" => NumSV(Res(R))
  \* a projective sample is the sample with one more coordinate
  /\ h \in {"opImageSampleProjImplictLod"} /\ R.v = "ok" => Dim(ts[2]) > 1 /\ Rule("opImageSampleImplictLod", <<ts[1], Wide(Comp(ts[2]), Dim(ts[2]) - 1)>>, <<0, 0>>) = [v |-> "ok", s |-> One(87, Res(R), Args(2))]
SoundLaws == Group # "ops" \/ ~Asked \/ LET op == req[3][1] IN Sound(op, req[2]) => Sound(op, Append(req[2], "value")) /\ Sound(op, Append(req[2], "type")) /\ ~Sound(op, Append(req[2], "null")) /\ ~Sound(op, Append(req[2], "self"))
Out == Emit /\ Asked => PrintT("S " \o ToJson(<<req[1], req[2], req[3]>>))
==============================================================================
