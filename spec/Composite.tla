------------------------------ MODULE Composite ------------------------------
(* Access to the elements of composite types: what is added for a base type and  *)
(* a path of indices.                                                             *)
EXTENDS Typing

None == <<"none">>
KU(i) == <<"k", U(32), <<i \div 65536, i % 65536>>>>        \* unsigned constant
\* type of element i of t
Element(t, i) ==
  CASE t[1] \in {"Vec", "Mat", "Arr"} -> IF i < t[3] THEN t[2] ELSE None
    [] t[1] = "RArr" -> t[2]
    [] t[1] = "Struct" -> IF i < Len(t[2]) THEN t[2][i + 1] ELSE None
    [] OTHER -> None
RECURSIVE Walk(_, _)
Walk(t, p) == IF p = <<>> THEN t ELSE LET s == Element(t, Head(p)) IN IF s = None THEN None ELSE Walk(s, Tail(p))
Lits(p) == [k \in DOMAIN p |-> L(p[k])]
Consts(p) == [k \in DOMAIN p |-> KU(p[k])]

AccessChain(b, p) ==
  IF ~IsPtr(b) \/ Walk(b[3], p) = None THEN No
  ELSE LET s == One(65, <<"Ptr", b[2], Walk(b[3], p)>>, <<A(1)>> \o Consts(p)) IN IF p = <<>> THEN May(s) ELSE Ok(s)
Extract(t, p) ==
  IF ~IsComposite(t) \/ Walk(t, p) = None THEN No
  ELSE LET s == One(81, Walk(t, p), <<A(1)>> \o Lits(p)) IN IF p = <<>> THEN May(s) ELSE Ok(s)
Insert(t, v, p) == When(IsComposite(t) /\ p # <<>> /\ Walk(t, p) # None /\ v = Walk(t, p), Ok(One(82, t, <<A(2), A(1)>> \o Lits(p))))
\* ts: result type, base, indices; x: is the first index a constant
TypedChain(op, ts, k) ==
  LET s == One(op, ts[1], [i \in 1..(Len(ts) - 1) |-> A(i + 1)]) IN
  IF ~IsPtr(ts[1]) \/ ~IsPtr(ts[2]) THEN No ELSE IF op = 66 /\ k = 0 THEN May(s) ELSE Ok(s)
\* components -1: none
Shuffle(a, b, p) == When(IsVec(a) /\ IsVec(b) /\ a[2] = b[2] /\ \A k \in DOMAIN p : p[k] < a[3] + b[3], Ok(One(79, V(a[2], Len(p)), <<A(1), A(2)>> \o [k \in DOMAIN p |-> IF p[k] < 0 THEN <<"l", 65535, 65535>> ELSE L(p[k])])))
RECURSIVE Sum(_)
Sum(ts) == IF ts = <<>> THEN 0 ELSE Dim(Head(ts)) + Sum(Tail(ts))
Constitutes(t, ts) ==
  CASE IsVec(t) -> Len(ts) >= 2 /\ (\A k \in DOMAIN ts : Comp(ts[k]) = t[2]) /\ Sum(ts) = t[3]
    [] t[1] \in {"Mat", "Arr"} -> Len(ts) = t[3] /\ \A k \in DOMAIN ts : ts[k] = t[2]
    [] t[1] = "Struct" -> ts = t[2]
Construct(t, ts) ==
  LET s == One(80, t, [k \in DOMAIN ts |-> A(k + 1)]) IN
  IF ~IsComposite(t) THEN No ELSE IF Constitutes(t, ts) THEN Ok(s) ELSE [v |-> "any", s |-> s]

Access(h, ts, p) ==
  CASE h \in {"opAccessChain", "opAccessChainList"} -> AccessChain(ts[1], p)
    [] h \in {"opCompositeExtract", "opCompositeExtractDynamic"} -> Extract(ts[1], p)
    [] h = "opCompositeInsert" -> Insert(ts[1], ts[2], p)
    [] h = "opVectorShuffle" -> Shuffle(ts[1], ts[2], p)
    [] h \in {"opCompositeConstruct", "opCompositeConstructDynamic"} -> Construct(ts[1], Tail(ts))
    [] h = "opAccessChainTyped" -> TypedChain(65, ts, p[1])
    [] h = "opInBoundsAccessChain" -> TypedChain(66, ts, p[1])
    \* a value in the place of the result type
    [] h \in {"opCompositeConstructOfValue", "opAccessChainOfValue"} -> No
==============================================================================
