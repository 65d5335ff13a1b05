----------------------------- MODULE MC_Composite -----------------------------
(* Walks through composite types, one index at a time, inside and out of bounds;  *)
(* at every place all ways to get there are requested.                            *)
EXTENDS Composite, Json
CONSTANTS Depth, Emit
VARIABLES base, path, at, out, req
vars == <<base, path, at, out, req>>
F32 == F(32)  I32 == I(32)  U32 == U(32)
St(s) == <<"Struct", s>>
Arr(t, n) == <<"Arr", t, n>>
RArr(t) == <<"RArr", t>>
Ptr(c, t) == <<"Ptr", c, t>>
Smp == <<"Sampler">>
Img == <<"Img", F32, 1, 0, 0, 0, 1, 0, -1>>
Leaf == St(<<F32, I32, V(F32, 3)>>)
Bases == {V(F32, 2), V(I32, 4), V(B, 3), M(V(F32, 2), 3), M(V(F(64), 4), 2), Arr(F32, 3), Arr(V(F32, 2), 2), Arr(Arr(I32, 2), 3), Arr(M(V(F32, 3), 2), 2), Leaf, St(<<Leaf, U32, Arr(Leaf, 2)>>),
          St(<<B>>), St(<<St(<<St(<<U(64)>>), F(16)>>), F(64)>>), St(<<M(V(F32, 4), 4), V(F32, 4), Arr(F32, 4), I(8)>>), Arr(St(<<Arr(St(<<I32, F32>>), 2), V(U32, 2)>>), 2), St(<<>>),
          St(<<F32, Ptr(7, V(F32, 2)), Ptr(7, St(<<F32, I32>>))>>), St(<<Img, Smp>>), Arr(<<"SImg", Img>>, 2)}
OnlyBehind == {RArr(F32), RArr(St(<<F32, V(I32, 3)>>)), St(<<U32, RArr(V(F32, 4))>>), F32, I32, Smp, Img, Ptr(7, V(F32, 2)), Ptr(7, Leaf)}
Classes_ == <<1, 2, 6, 7, 9, 12>>
Values == {F32, I32, U32, B, F(64), V(F32, 2), V(F32, 3), V(I32, 2), M(V(F32, 2), 2), Leaf, Arr(F32, 3), Smp}
------------------------------------------------------------------------------
Init == base \in Bases \cup OnlyBehind /\ path = <<>> /\ at = base /\ out = FALSE /\ req = <<>>
Same == UNCHANGED base
\* indices around the number of elements
Size(t) == CASE t[1] \in {"Vec", "Mat", "Arr"} -> t[3] [] t[1] = "Struct" -> Len(t[2]) [] t[1] = "RArr" -> 2 [] OTHER -> 0
Step == req = <<>> /\ ~out /\ Len(path) < Depth /\ \E i \in 0..(Size(at) - 1) : path' = Append(path, i) /\ at' = Element(at, i) /\ UNCHANGED <<base, out, req>>
Leave == req = <<>> /\ ~out /\ Len(path) < Depth /\ at[1] # "RArr" /\ \E i \in {Size(at), Size(at) + 1, 70000} : path' = Append(path, i) /\ at' = at /\ out' = TRUE /\ UNCHANGED <<base, req>>
\* an index behind one that already left
Beyond == req = <<>> /\ out /\ Len(path) < Depth /\ \E i \in {0, 1} : path' = Append(path, i) /\ UNCHANGED <<base, at, out, req>>
Ask(h, ts, p) == req = <<>> /\ req' = <<h, ts, p>> /\ UNCHANGED <<base, path, at, out>>
\* the list of indices of a dynamic request may be empty
Chain == req = <<>> /\ \E h \in {"opAccessChain", "opAccessChainList"} : Ask(h, <<Ptr(Classes_[((Len(path) + Size(base)) % 6) + 1], base)>>, path)
Direct == path # <<>> /\ \E h \in {"opAccessChain", "opAccessChainList"} : base[1] # "RArr" /\ base # St(<<U32, RArr(V(F32, 4))>>) /\ Ask(h, <<base>>, path)
Value(t) == t \notin {RArr(F32), RArr(St(<<F32, V(I32, 3)>>)), St(<<U32, RArr(V(F32, 4))>>)}
Get == Value(base) /\ \E h \in {"opCompositeExtract", "opCompositeExtractDynamic"} : (h = "opCompositeExtract" => path # <<>>) /\ Ask(h, <<base>>, path)
Put == Value(base) /\ path # <<>> /\ \E v \in Values \cup {at} : Value(v) /\ Ask("opCompositeInsert", <<base, v>>, path)
Again == path = <<>> /\ base = V(F32, 2)
Vecs == {V(t, n) : t \in {F32, I32, B}, n \in {2, 3, 4}} \cup {V(F(64), 2), V(U32, 2)}
Shuffles == Again /\ \/ \E a \in Vecs, b \in Vecs \cup {F32, M(V(F32, 2), 2), Arr(F32, 2)}, p \in {<<0, 1>>, <<3, 0, 2>>, <<1, 1, 1, 1>>} : Ask("opVectorShuffle", <<a, b>>, p)
                     \/ \E a \in {F32, Arr(F32, 2)} : Ask("opVectorShuffle", <<a, V(F32, 2)>>, <<0, 1>>)
                     \/ \E a, b \in {2, 3, 4}, n \in {2, 3, 4} : \E k \in 1..n, i \in {-1} \cup 0..9 : Ask("opVectorShuffle", <<V(F32, a), V(F32, b)>>, [j \in 1..n |-> IF j = k THEN i ELSE j % (a + b)])
Parts(t) == {IF t[1] \in {"Struct"} THEN t[2] ELSE [k \in 1..t[3] |-> t[2]]}
Splits == {<<V(F32, 4), <<V(F32, 2), V(F32, 2)>>>>, <<V(F32, 4), <<F32, V(F32, 3)>>>>, <<V(F32, 4), <<V(F32, 2), F32, F32>>>>, <<V(F32, 3), <<F32, V(F32, 2)>>>>, <<V(B, 3), <<V(B, 2), B>>>>}
Constructs == req = <<>> /\ \E h \in {"opCompositeConstruct", "opCompositeConstructDynamic"} :
                 \/ path = <<>> /\ base \in Bases /\ base # St(<<>>) /\ \E p \in Parts(base) : Len(p) <= 6 /\ Ask(h, <<base>> \o p, <<>>)
                 \/ Again /\ \E s \in Splits : Ask(h, <<s[1]>> \o s[2], <<>>)
                 \/ Again /\ \E t \in {F32, I32, B, Ptr(7, F32), Smp, Img, <<"Void">>} : Ask(h, <<t, F32, F32>>, <<>>)
Typed == Again /\ \E h \in {"opAccessChainTyped", "opInBoundsAccessChain"}, r \in {Ptr(7, F32), Ptr(12, I32), F32, St(<<F32>>)}, b \in {Ptr(7, V(F32, 2)), Ptr(12, St(<<F32, I32>>)), V(F32, 2), St(<<F32>>)}, i \in {<<I32>>, <<U32>>, <<I32, U32>>, <<U32, U32, I32>>}, k \in {0, 1} : Ask(h, <<r, b>> \o i, <<k>>)
Mistaken == Again /\ \/ \E t \in {V(F32, 2), Arr(F32, 2), St(<<F32, F32>>)} : Ask("opCompositeConstructOfValue", <<t, F32, F32>>, <<>>)
                     \/ \E t \in {Ptr(7, F32), Ptr(12, I32)} : Ask("opAccessChainOfValue", <<t, Ptr(7, V(F32, 2)), I32>>, <<>>)
Next == Step \/ Leave \/ Beyond \/ Chain \/ Direct \/ Get \/ Put \/ Shuffles \/ Constructs \/ Typed \/ Mistaken
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
\* the element by element walk and the path agree
Walked == Walk(base, path) = IF out THEN None ELSE at
Rl(h, ts, p) == Access(h, ts, p)
Asked == req # <<>>
R == Rl(req[1], req[2], req[3])
Laws == Asked =>
  LET h == req[1]  ts == req[2]  p == req[3] IN
  /\ R.v \in {"ok", "no", "may", "any"}
  /\ h = "opCompositeExtract" =>
       \* extraction in two steps is extraction at once; the chain of pointers leads to the same type; what was extracted can be inserted
       /\ \A k \in 1..(Len(p) - 1) : LET x == Extract(ts[1], SubSeq(p, 1, k))  y == IF x.v = "ok" THEN Extract(x.s[1][2], SubSeq(p, k + 1, Len(p))) ELSE No IN
            (R.v = "ok" => y.v = "ok" /\ y.s[1][2] = R.s[1][2]) /\ (y.v = "ok" => R.v = "ok")
       /\ IsComposite(ts[1]) => LET c == AccessChain(<<"Ptr", 7, ts[1]>>, p) IN c.v = R.v /\ (R.v = "ok" => c.s[1][2] = <<"Ptr", 7, R.s[1][2]>>)
       /\ R.v = "ok" => Insert(ts[1], R.s[1][2], p).v = "ok"
  /\ h = "opCompositeInsert" /\ R.v = "ok" => R.s[1][2] = ts[1] /\ Extract(ts[1], p).s[1][2] = ts[2]
  /\ h \in {"opCompositeConstruct", "opCompositeConstructDynamic"} /\ R.v = "ok" /\ ~IsVec(ts[1]) => \A k \in 1..(Len(ts) - 1) : Extract(ts[1], <<k - 1>>).s[1][2] = ts[k + 1]
Out == Emit /\ Asked => PrintT("S " \o ToJson(req))
==============================================================================
