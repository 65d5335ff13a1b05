------------------------------ MODULE MC_Types -------------------------------
(* A module answering requests: what it declares is determined by Parts in an   *)
(* order in which everything comes after what it is made of.                    *)
EXTENDS Types, Json, SequencesExt
CONSTANTS Requests, Wide
VARIABLES tcs, D, hist
vars == <<tcs, D, hist>>
F32 == <<"Float", 32>>  I32 == <<"Int", 32, 1>>
V(t, n) == <<"Vec", t, n>>
Scalars == {<<"Bool">>, F32, <<"Float", 64>>, <<"Float", 16>>, I32, U32, <<"Int", 8, 1>>, <<"Int", 8, 0>>, <<"Int", 16, 1>>, <<"Int", 16, 0>>, <<"Int", 64, 1>>, <<"Int", 64, 0>>}
Vecs == {V(t, n) : t \in {F32, I32, U32, <<"Bool">>, <<"Float", 64>>}, n \in {2, 3, 4}}
Mats == {<<"Mat", V(F32, r), c>> : r \in {2, 3, 4}, c \in {2, 3}} \cup {<<"Mat", V(<<"Float", 64>>, 2), 2>>}
Img(t, d, dep, ar, ms, sa, fm, ac) == <<"Img", t, d, dep, ar, ms, sa, fm, ac>>
Imgs == {Img(F32, d, dep, ar, 0, 1, 0, -1) : d \in {0, 1, 2, 3}, dep \in {0, 1, 2}, ar \in {0, 1}}
     \cup {Img(t, 1, 0, 0, ms, sa, fm, ac) : t \in {F32, I32, U32}, ms \in {0, 1}, sa \in {0, 1, 2}, fm \in {0, 1, 3}, ac \in {-1, 0, 1, 2}}
Simple == Scalars \cup Vecs \cup Mats
Arrs == {<<"Arr", t, n>> : t \in {F32, V(F32, 4), U32, <<"Mat", V(F32, 4), 4>>}, n \in {1, 2, 7, 300}} \cup {<<"RArr", t>> : t \in {F32, U32, V(F32, 3)}}
Structs == {<<"Struct", s>> : s \in {<<>>, <<F32>>, <<F32, F32>>, <<F32, I32>>, <<I32, F32>>, <<V(F32, 2)>>, <<F32, F32, F32>>,
             <<<<"Struct", <<F32>>>>, F32>>, <<<<"Struct", <<F32, F32>>>>>>, <<<<"Struct", <<>>>>, F32>>, <<<<"Struct", <<F32>>>>>>, <<<<"Arr", F32, 2>>, I32>>, <<<<"RArr", U32>>>>, <<<<"Struct", <<<<"Struct", <<>>>>>>>>>>}}
Ptrs == {<<"Ptr", c, t>> : c \in {1, 2, 3, 4, 6, 7, 9, 12}, t \in {F32, V(F32, 3), <<"Struct", <<F32>>>>, <<"Ptr", 7, F32>>}}
Funs == {<<"Fun", s>> : s \in {<<<<"Void">>>>, <<F32>>, <<<<"Void">>, F32>>, <<F32, F32>>, <<F32, F32, I32>>, <<I32, <<"Ptr", 7, F32>>>>, <<<<"Struct", <<F32>>>>, F32>>, <<<<"Struct", <<F32, F32>>>>>>}}
Others == {<<"Void">>, <<"Sampler">>} \cup {<<"T", k>> : k \in Plain} \cup {<<"SImg", i>> : i \in {Img(F32, 1, 0, 0, 0, 1, 0, -1), Img(I32, 1, 0, 0, 0, 1, 0, -1), Img(F32, 2, 1, 1, 0, 1, 0, -1)}}
\* types that differ in one place deep inside only
Holes == {F32, I32, U32, <<"Float", 64>>, V(F32, 2), V(F32, 3), <<"Mat", V(F32, 2), 2>>, <<"Mat", V(F32, 3), 2>>, <<"Ptr", 7, F32>>, <<"Ptr", 6, F32>>, <<"Arr", F32, 2>>, <<"Arr", F32, 3>>, <<"Struct", <<F32>>>>, <<"Struct", <<I32>>>>}
St(ts) == <<"Struct", ts>>
Deep == UNION {{St(<<St(<<St(<<h>>)>>)>>), St(<<F32, St(<<h, F32>>)>>), St(<<<<"Arr", h, 2>>>>), <<"Arr", <<"Arr", h, 2>>, 3>>, <<"Ptr", 12, St(<<h, h>>)>>, <<"Ptr", 2, <<"RArr", h>>>>, St(<<U32, <<"RArr", St(<<h>>)>>>>), <<"Fun", <<h, h, <<"Ptr", 7, h>>>>>>, <<"Fun", <<<<"Void">>, <<"Arr", h, 3>>>>>>, <<"Ptr", 6, <<"Ptr", 7, h>>>>} : h \in Holes}
     \cup {<<"Arr", <<"Arr", F32, a>>, b>> : a \in {1, 2, 3}, b \in {1, 2, 3}}
AllTypes == Deep \cup Simple \cup Imgs \cup Arrs \cup Structs \cup Ptrs \cup Funs \cup Others
C(k, t, b, cs) == <<"C", k, t, b, cs>>
Bits(t) == CASE t[1] = "Bool" -> {<<0>>, <<1>>} [] t[2] \in {8} -> {<<0>>, <<1>>, <<127>>, <<128>>, <<255>>} [] t[2] = 16 -> {<<0>>, <<1>>, <<32767>>, <<32768>>, <<65535>>}
            [] t[2] = 32 -> {<<0, 0>>, <<1, 0>>, <<65535, 65535>>, <<0, 16256>>, <<0, 32768>>} [] t[2] = 64 -> {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<0, 0, 1, 0>>, <<65535, 65535, 65535, 65535>>, <<4660, 22136, 0, 32768>>}
ValScalars == Scalars \ {<<"Float", 16>>}
Vals(kinds) == UNION {{C(k, t, b, <<>>) : k \in kinds, b \in Bits(t)} : t \in ValScalars}
One(t) == C("val", t, CASE t[1] = "Bool" -> <<1>> [] t[2] = 8 -> <<5>> [] t[2] = 16 -> <<5>> [] t[2] = 32 -> <<0, 16256>> [] t[2] = 64 -> <<0, 0, 0, 16368>>, <<>>)
Two(t) == C("val", t, CASE t[1] = "Bool" -> <<0>> [] t[2] = 8 -> <<200>> [] t[2] = 16 -> <<40000>> [] t[2] = 32 -> <<1, 16256>> [] t[2] = 64 -> <<1, 0, 0, 16368>>, <<>>)
Sp(c) == <<"C", "spec", c[3], c[4], c[5]>>
VecC(k, t, n, f(_)) == C(k, V(t, n), <<>>, [x \in 1..n |-> f(x)])
Comps == {VecC("comp", t, 2, LAMBDA x : IF (x = 1) = o THEN One(t) ELSE Two(t)) : t \in {F32, I32, <<"Bool">>}, o \in BOOLEAN}
   \cup {VecC("comp", F32, n, LAMBDA x : One(F32)) : n \in {3, 4}}
   \cup {C("comp", <<"Arr", F32, 2>>, <<>>, <<One(F32), Two(F32)>>), C("comp", <<"Struct", <<F32, I32>>>>, <<>>, <<One(F32), One(I32)>>),
         C("comp", <<"Struct", <<<<"Struct", <<F32>>>>, F32>>>>, <<>>, <<C("comp", <<"Struct", <<F32>>>>, <<>>, <<One(F32)>>), Two(F32)>>),
         C("comp", <<"Struct", <<F32, F32>>>>, <<>>, <<C("null", F32, <<>>, <<>>), One(F32)>>),
         C("comp", <<"Mat", V(F32, 2), 2>>, <<>>, <<VecC("comp", F32, 2, LAMBDA x : One(F32)), VecC("comp", F32, 2, LAMBDA x : Two(F32))>>)}
\* composites that differ in one leaf only: k is the leaf that differs, w how
RECURSIVE Leafs(_)
Leafs(t) == CASE t[1] \in {"Vec", "Mat", "Arr"} -> t[3] * Leafs(t[2]) [] t[1] = "Struct" -> FoldLeft(LAMBDA a, x : a + Leafs(x), 0, t[2]) [] OTHER -> 1
Before(ts, x) == IF x = 1 THEN 0 ELSE FoldLeft(LAMBDA a, y : a + Leafs(y), 0, SubSeq(ts, 1, x - 1))
RECURSIVE Leaf(_, _, _)
Leaf(t, k, w) ==
  IF t[1] \in {"Vec", "Mat", "Arr", "Struct"}
  THEN LET ts == IF t[1] = "Struct" THEN t[2] ELSE [x \in 1..t[3] |-> t[2]] IN
       C(IF w = "spec" /\ k > 0 /\ k <= Leafs(t) THEN "speccomp" ELSE "comp", t, <<>>, [x \in DOMAIN ts |-> Leaf(ts[x], k - Before(ts, x), w)])
  ELSE IF k # 1 THEN One(t) ELSE CASE w = "two" -> Two(t) [] w = "spec" -> Sp(One(t)) [] OTHER -> C("null", t, <<>>, <<>>)
Nested == {<<"Mat", V(F32, 2), 2>>, <<"Mat", V(F32, 3), 2>>, <<"Arr", V(F32, 2), 2>>, <<"Arr", <<"Arr", I32, 2>>, 2>>, <<"Struct", <<<<"Struct", <<F32, I32>>>>, V(F32, 2)>>>>, <<"Arr", <<"Mat", V(F32, 2), 2>>, 2>>,
           <<"Struct", <<<<"Arr", <<"Struct", <<F32>>>>, 2>>, I32>>>>, <<"Struct", <<<<"Struct", <<<<"Struct", <<U32>>>>>>>>, F32>>>>, <<"Arr", <<"Float", 64>>, 2>>, <<"Struct", <<<<"Int", 64, 1>>, <<"Int", 64, 0>>>>>>}
Deeps == UNION {{Leaf(t, k, w) : k \in 0..Leafs(t), w \in {"two", "spec", "null"}} : t \in Nested}
SpecComps == {VecC("speccomp", F32, 3, LAMBDA x : One(F32)), VecC("speccomp", F32, 2, LAMBDA x : Sp(One(F32))), C("speccomp", <<"Struct", <<F32, I32>>>>, <<>>, <<One(F32), Sp(One(I32))>>)}
Nulls == {C("null", t, <<>>, <<>>) : t \in Scalars \cup {V(F32, 2), V(F32, 3), <<"Arr", F32, 2>>, <<"Struct", <<F32, I32>>>>, <<"Struct", <<F32>>>>, <<"Mat", V(F32, 2), 2>>, <<"Ptr", 7, F32>>}}
Samplers == {C("sampler", <<"Sampler">>, b, <<>>) : b \in {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<4, 1, 1>>}}
AllConsts == Vals({"val", "spec"}) \cup Comps \cup Deeps \cup SpecComps \cup Nulls \cup Samplers
Universe == IF Wide = "types" THEN AllTypes ELSE IF Wide = "consts" THEN AllConsts
            ELSE {F32, V(F32, 2), <<"Arr", F32, 2>>, <<"Struct", <<<<"Struct", <<F32>>>>, F32>>>>, <<"Struct", <<<<"Struct", <<F32, F32>>>>>>>>, <<"Fun", <<F32, V(F32, 2)>>>>, One(F32), Sp(One(F32)), C("val", U32, <<2, 0>>, <<>>), C("null", F32, <<>>, <<>>),
                  VecC("comp", F32, 2, LAMBDA x : One(F32)), VecC("speccomp", F32, 2, LAMBDA x : Sp(One(F32)))}
------------------------------------------------------------------------------
\* a declaration order: by size, parts first; constants after their type
RECURSIVE Size(_)
Size(d) == 1 + (IF IsConst(d) THEN Size(d[2]) + (IF d[4] = <<>> THEN 0 ELSE FoldLeft(LAMBDA a, x : a + Size(x), 0, d[4]))
            ELSE CASE d[1] \in {"Vec", "Mat", "SImg", "RArr", "Img"} -> Size(d[2]) [] d[1] = "Arr" -> Size(d[2]) + 3 [] d[1] = "Ptr" -> Size(d[3])
                   [] d[1] \in {"Struct", "Fun"} /\ d[2] # <<>> -> FoldLeft(LAMBDA a, x : a + Size(x), 0, d[2]) [] OTHER -> 0)
Ref(E, d) == <<"i", CHOOSE n \in DOMAIN E : E[n] = d>>
Li(n) == <<"l", n \div 65536, n % 65536>>
Self == <<"d", 0>>
TypeOperands(E, d) ==
  CASE d[1] \in {"Void", "Bool", "Sampler", "T"} -> <<>>
    [] d[1] = "Int" -> <<Li(d[2]), Li(d[3])>> [] d[1] = "Float" -> <<Li(d[2])>>
    [] d[1] \in {"Vec", "Mat"} -> <<Ref(E, d[2]), Li(d[3])>> [] d[1] = "Arr" -> <<Ref(E, d[2]), Ref(E, LenConst(d[3]))>>
    [] d[1] \in {"RArr", "SImg"} -> <<Ref(E, d[2])>> [] d[1] \in {"Struct", "Fun"} -> [k \in DOMAIN d[2] |-> Ref(E, d[2][k])]
    [] d[1] = "Ptr" -> <<Li(d[2]), Ref(E, d[3])>>
    [] d[1] = "Img" -> <<Ref(E, d[2])>> \o [k \in 1..6 |-> Li(d[k + 2])] \o (IF d[9] < 0 THEN <<>> ELSE <<Li(d[9])>>)
TypeOp(d) == CASE d[1] = "T" -> d[2] [] OTHER ->
  LET names == <<"Void", "Bool", "Int", "Float", "Vec", "Mat", "Img", "Sampler", "SImg", "Arr", "RArr", "Struct", "-", "Ptr", "Fun">> IN 18 + (CHOOSE k \in DOMAIN names : names[k] = d[1])
Instr(E, d, n) == IF IsConst(d) THEN <<n, d[1], <<Ref(E, d[2]), Self>> \o [k \in DOMAIN d[3] |-> <<"l", d[3][k][1], d[3][k][2]>>] \o [k \in DOMAIN d[4] |-> Ref(E, d[4][k])]>>
                  ELSE <<n, TypeOp(d), <<Self>> \o TypeOperands(E, d)>>
Missing(w) == SetToSortSeq({p \in Parts(w) : p \notin Range(D) \/ HasSpec(p)}, LAMBDA a, b : Size(a) < Size(b))
RECURSIVE Declare(_, _, _)
Declare(E, ps, k) == IF k > Len(ps) THEN <<>> ELSE LET n == Len(tcs) + k  i == Instr(E, ps[k], n) IN <<i>> \o Declare((n :> ps[k]) @@ E, ps, k + 1)
Init == tcs = <<>> /\ D = <<>> /\ hist = <<>>
Request(r) ==
  LET w == Want(r)  new == Declare(D, Missing(w), 1)
      E == Fold(D, new, 1)
      got == IF HasSpec(w) THEN Len(tcs) + Len(new) ELSE CHOOSE n \in DOMAIN E : E[n] = w IN
  /\ Good(Answer(D, w, got, new))
  /\ tcs' = tcs \o new /\ D' = E /\ hist' = Append(hist, r)
Next == Len(hist) < Requests /\ \E r \in Universe : Request(r)
Spec == Init /\ [][Next]_vars
\* every request can be answered, and answers are right in the end
Answered == Len(hist) < Requests => \A r \in Universe : ENABLED Request(r)
NoDuplicates == \A a, b \in DOMAIN D : D[a] = D[b] /\ ~HasSpec(D[a]) => a = b
Declared == \A k \in DOMAIN tcs : D[tcs[k][1]] = Decode(tcs[k], [n \in {tcs[j][1] : j \in 1..(k - 1)} |-> D[n]])
Complete == \A k \in DOMAIN hist : Want(hist[k]) \in Range(D)
\* the declarations, for binaries made of them
Frag == Len(hist) = Requests => PrintT("B " \o ToJson(tcs))
Out == Len(hist) = Requests => PrintT("S " \o ToJson(hist))
=============================================================================
