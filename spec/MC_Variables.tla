----------------------------- MODULE MC_Variables ------------------------------
(* A module and three functions (one without blocks) answering requests for variables.                  *)
EXTENDS Variables, Json, SequencesExt
CONSTANTS Requests, Wide
VARIABLES D, tcs, vars, names, blocks, hist
mvars == <<D, tcs, vars, names, blocks, hist>>
F32 == <<"Float", 32>>  I32 == <<"Int", 32, 1>>  V(t, n) == <<"Vec", t, n>>
Bits(t) == CASE t = <<"Bool">> -> <<1>> [] t[2] = 64 -> <<7, 3, 2, 16368>> [] t[2] \in {8, 16} -> <<5>> [] OTHER -> <<1, 16256>>
Val(k, t) == <<"C", k, t, Bits(t), <<>>>>
Two(t) == <<"C", "val", t, CASE t = <<"Bool">> -> <<0>> [] t[2] = 64 -> <<3, 0, 0, 0>> [] t[2] \in {8, 16} -> <<3>> [] OTHER -> <<3, 0>>, <<>>>>
Null(t) == <<"C", "null", t, <<>>, <<>>>>
Comp(t, n, e) == <<"C", "comp", <<t, e, n>>, <<>>, [k \in 1..n |-> IF k = 1 THEN Val("val", e) ELSE Two(e)]>>
Scalars == {F32, I32, U32, <<"Bool">>} \cup (IF Wide THEN {<<"Float", 64>>, <<"Int", 64, 1>>, <<"Int", 64, 0>>, <<"Int", 8, 1>>, <<"Int", 8, 0>>, <<"Int", 16, 1>>, <<"Int", 16, 0>>} ELSE {})
Img == <<"Img", F32, 1, 0, 0, 0, 1, 0, -1>>
Composite == {V(F32, 2), V(F32, 3), <<"Arr", F32, 2>>, <<"Struct", <<F32, I32>>>>}
  \cup (IF Wide THEN {V(F32, 4), V(U32, 3), V(<<"Bool">>, 2), <<"Mat", V(F32, 3), 2>>, <<"Arr", F32, 7>>, <<"Arr", V(F32, 4), 2>>, <<"RArr", U32>>, <<"Struct", <<V(F32, 2)>>>>, <<"Struct", <<<<"RArr", F32>>>>>>,
       <<"Ptr", 12, F32>>, <<"Ptr", 7, F32>>, <<"Ptr", 7, V(F32, 3)>>, <<"Sampler">>, Img, <<"Img", U32, 2, 1, 1, 0, 2, 3, -1>>, <<"SImg", Img>>, <<"SImg", <<"Img", F32, 3, 1, 1, 0, 1, 0, -1>>>>, <<"T", 5341>>, <<"T", 4472>>} ELSE {})
Classes == IF Wide THEN {0, 1, 2, 3, 4, 6, 9, 11, 12, 5349} ELSE {1, 2, 6}
Inits(t) ==
  {<<>>} \cup (IF t \in Scalars THEN {<<Val("val", t)>>, <<Two(t)>>} \cup (IF Wide THEN {<<Val("spec", t)>>, <<Null(t)>>} ELSE {}) ELSE {})
  \cup (IF t[1] \in {"Vec", "Arr"} /\ t[2] = F32 /\ t[3] < 5 THEN {<<Comp(t[1], t[3], F32)>>} ELSE {})
  \cup (IF t[1] \in {"Vec", "Arr", "Struct", "Mat"} /\ Wide THEN {<<Null(t)>>} ELSE {})
Names == {NoName, <<118>>} \cup (IF Wide THEN {<<97, 98, 99, 100>>, <<118, 95, 195, 164, 49>>} ELSE {})
R(sc, t, i, n, a) == [sc |-> sc, type |-> t, init |-> i, name |-> n, at |-> a]
Universe == UNION {{R(sc, t, i, n, 0) : sc \in Classes, i \in Inits(t), n \in Names} : t \in Scalars \cup Composite}
       \cup UNION {{R(Local, t, i, n, a) : i \in Inits(t), n \in Names, a \in {1, 2, 3}} : t \in Scalars \cup Composite}
Size(d) == Cardinality(Parts(d))
Li(n) == <<"l", 0, n>>
Self == <<"d", 0>>
Init == D = {} /\ tcs = <<>> /\ vars = <<<<>>, <<>>, <<>>, <<>>>> /\ names = <<>> /\ blocks = <<<<-1>>, <<-2, -3>>, <<>>>> /\ hist = <<>>
Request(r) ==
  LET new == SetToSortSeq({p \in Allowed(r) : p \notin D \/ (HasSpec(p) /\ p = InitOf(r)[1])}, LAMBDA a, b : Size(a) < Size(b)) IN
  /\ tcs' = tcs \o new /\ D' = D \cup Allowed(r)
  /\ vars' = Place(vars, r, Wanted(r))
  /\ blocks' = IF Opens(blocks, r) THEN [blocks EXCEPT ![r.at] = <<-9>>] ELSE blocks
  /\ names' = names \o (IF Opens(blocks, r) THEN <<<<-9, EntryName>>>> ELSE <<>>) \o (IF r.name = NoName THEN <<>> ELSE <<<<Len(hist) + 1, r.name>>>>)
  /\ hist' = Append(hist, r)
Global == Len(hist) < Requests /\ \E r \in {x \in Universe : x.at = 0} : Request(r)
InFunction == Len(hist) < Requests /\ \E r \in {x \in Universe : x.at # 0} : Request(r)
Next == Global \/ InFunction
Spec == Init /\ [][Next]_mvars
------------------------------------------------------------------
All == vars[1] \o vars[2] \o vars[3] \o vars[4]
\* a variable is a pointer into its own storage class; only a function's variables are local
Right == \A k \in DOMAIN All : All[k].type[1] = "Ptr" /\ All[k].type[2] = All[k].sc
Where == /\ \A k \in DOMAIN vars[1] : vars[1][k].sc # Local
         /\ \A f \in {2, 3, 4} : \A k \in DOMAIN vars[f] : vars[f][k].sc = Local
\* an initial value is of the type pointed to
Fits == \A k \in DOMAIN All : All[k].init # <<>> => All[k].init[1][2] = All[k].type[3]
\* a variable lives in a block
Homes == \A f \in {2, 3, 4} : vars[f] # <<>> => blocks[f - 1] # <<>>
\* nothing is named twice
Named == \A j, k \in DOMAIN names : names[j][1] = names[k][1] => j = k
Count == Len(All) = Len(hist)
\* all that is needed is declared before, once
Declared == /\ \A k \in DOMAIN All : All[k].type \in D /\ \A x \in DOMAIN All[k].init : All[k].init[x] \in D
            /\ \A j, k \in DOMAIN tcs : tcs[j] = tcs[k] => j = k \/ HasSpec(tcs[j])
            /\ \A k \in DOMAIN tcs : Parts(tcs[k]) \subseteq {tcs[j] : j \in 1..k}
Out == Len(hist) = Requests => PrintT("S " \o ToJson(hist))
================================================================================
