------------------------------- MODULE Recover --------------------------------
(* What a module read from a binary has to tell about it: the value of every    *)
(* type and constant, the type of every result, names, entry points, functions, *)
(* their parameters, blocks, branch targets and calls.                          *)
EXTENDS Binary
TY == INSTANCE Types
Lo(w) == w[1] * 65536 + w[2]
Opnd(r, w) == CASE r = "r" -> <<"d", Lo(w)>> [] r \in {"i", "t"} -> <<"i", Lo(w)>> [] OTHER -> <<"l", w[1], w[2]>>
Node(c, r) == LET p == ResAt(OpOf(c)) IN <<IF p = 0 THEN 0 ELSE Lo(c[p + 1]), OpOf(c), [k \in DOMAIN r |-> Opnd(r[k], c[k + 1])]>>
Nodes(f) == [k \in DOMAIN f.C |-> Node(f.C[k], f.R[k])]
IsDecl(n) == n[2] \in TY!TypeOps \cup TY!Constants
\* id -> value
Values(N) == FoldLeft(LAMBDA D, n : IF IsDecl(n) THEN (n[1] :> TY!Decode(n, D)) @@ D ELSE D, [x \in {} |-> <<>>], N)
Typed(n) == n[1] # 0 /\ Known(n[2]) /\ Op(n[2]).type
Sel(N, Q(_)) == SelectSeq(N, Q)
Lits(o) == [k \in DOMAIN o |-> <<o[k][2], o[k][3]>>]
Named(N) == LET S == Sel(N, LAMBDA n : n[2] \in {5, 6}) IN
  [k \in DOMAIN S |-> IF S[k][2] = 5 THEN <<S[k][3][1][2], -1, StrOf(Lits(Tail(S[k][3])))>>
                      ELSE <<S[k][3][1][2], TY!Num(S[k][3][2]), StrOf(Lits(SubSeq(S[k][3], 3, Len(S[k][3]))))>>]
Refs(o) == LET S == SelectSeq(o, LAMBDA x : x[1] = "i") IN [k \in DOMAIN S |-> S[k][2]]
Str(o) == StrOf(Lits(SelectSeq(o, LAMBDA x : x[1] = "l")))
EntryPts(N) == LET S == Sel(N, LAMBDA n : n[2] = 15) IN
  [k \in DOMAIN S |-> LET o == S[k][3] IN [id |-> o[2][2], model |-> TY!Num(o[1]), name |-> Str(Tail(o)), io |-> Tail(Refs(o))]]
\* functions: the instructions between OpFunction and OpFunctionEnd, cut at the labels
FunNodes(N) == LET B == SelectSeq([k \in DOMAIN N |-> k], LAMBDA k : N[k][2] = 54)  E == SelectSeq([k \in DOMAIN N |-> k], LAMBDA k : N[k][2] = 56) IN
  [x \in DOMAIN B |-> SubSeq(N, B[x], E[x])]
Branches(n) == IF n[2] \in {249, 250, 251} THEN (IF n[2] = 249 THEN Refs(n[3]) ELSE Tail(Refs(n[3]))) ELSE <<>>
BodyOf(F) == LET L == SelectSeq([k \in DOMAIN F |-> k], LAMBDA k : F[k][2] = OpLabel) IN
  [x \in DOMAIN L |-> LET S == SubSeq(F, L[x] + 1, IF x = Len(L) THEN Len(F) - 1 ELSE L[x + 1] - 1) IN
     <<F[L[x]][1], [k \in DOMAIN S |-> <<S[k][2], S[k][1], Branches(S[k])>>]>>]
FunFacts(F, D, eps) ==
  LET o == F[1][3]  ft == o[4][2]  ps == SelectSeq(F, LAMBDA n : n[2] = 55) IN
  [id |-> F[1][1], t |-> D[ft], ret |-> D[o[1][2]], ti |-> ft, ri |-> o[1][2], ctl |-> TY!Num(o[3]),
   ps |-> [k \in DOMAIN ps |-> <<ps[k][1], ps[k][1]>>], bs |-> BodyOf(F), ep |-> F[1][1] \in eps, fin |-> TRUE]
SetOf(s) == {s[k] : k \in DOMAIN s}
Same(a, b, what) == Chk(BagEq(a, b), <<what, "missing", SetOf(a) \ SetOf(b), "extra", SetOf(b) \ SetOf(a)>>)
\* e: what was observed after reading e.w
Recovered(e) ==
  LET f == Facts(e.w)  N == Nodes(f)  D == Values(N)  nm == Named(N)
      ty == Sel(N, LAMBDA n : n[2] \in TY!TypeOps)  co == Sel(N, LAMBDA n : n[2] \in TY!Constants)  va == Sel(N, Typed)
      F == FunNodes(N)  eps == EntryPts(N)  ca == Sel(N, LAMBDA n : n[2] = 57)  count(s) == Len(s) IN
  /\ Chk(WellFormed(f, e.w) /\ ~Dangling(f) /\ ~Twice(f) /\ TY!Bad \notin {D[x] : x \in DOMAIN D}, <<"generated binary is not well formed", {n \in SetOf(N) : IsDecl(n) /\ D[n[1]] = TY!Bad}>>)
  /\ Chk(e.ok /\ e.err = 0, <<"not read", e.last>>)
  /\ Chk(e.ver = <<e.w[2][1] % 256, e.w[2][2] \div 256>>, <<"version", e.ver>>)
  /\ Same([k \in DOMAIN ty |-> <<ty[k][1], D[ty[k][1]]>>], e.types, "types")
  /\ Same([k \in DOMAIN co |-> <<co[k][1], TY!Norm(D[co[k][1]])>>], [k \in DOMAIN e.consts |-> <<e.consts[k][1], TY!Norm(e.consts[k][2])>>], "constants")
  /\ Same([k \in DOMAIN va |-> LET t == va[k][3][1][2] IN <<va[k][1], D[t], t, IF va[k][2] = OpVariable THEN TY!Num(va[k][3][3]) ELSE -1>>], e.vals, "types of results")
  /\ Chk(Len(nm) = Len(e.names) /\ \A x \in SetOf(nm) \cup SetOf(e.names) : count(SelectSeq(nm, LAMBDA y : y = x)) = count(SelectSeq(e.names, LAMBDA y : y = x)), <<"names", SetOf(nm) \ SetOf(e.names), SetOf(e.names) \ SetOf(nm)>>)
  \* the value of a scalar as the library hands it out
  /\ \A k \in DOMAIN e.data : LET x == e.data[k]  d == D[x[1]]  want == IF d[1] \in {41, 48} THEN <<<<0, 1>>>> ELSE IF d[1] \in {42, 49} THEN <<<<0, 0>>>> ELSE d[3] IN Chk(x[2] = want, <<"value", x, d>>)
  \* a name looked up is a name of it (<<id, string, id found by the string>>, -1: not found by its own id)
  /\ \A k \in DOMAIN e.found : LET x == e.found[k] IN
       /\ Chk(x[3] # -1, <<"not found by its id", x[1]>>)
       /\ Chk(<<x[1], -1, x[2]>> \in SetOf(nm), <<"is not the name", x>>)
       /\ Chk(x[3] = 0 \/ <<x[3], -1, x[2]>> \in SetOf(nm), <<"another is found by the name", x>>)
       /\ Chk(x[2] # <<>> => x[3] # 0, <<"not found by its name", x>>)
  /\ \A x \in {n \in SetOf(nm) : n[2] = -1} : Chk(x[1] \in {e.found[k][1] : k \in DOMAIN e.found}, <<"no name found", x>>)
  /\ Same([k \in DOMAIN F |-> FunFacts(F[k], D, {eps[j].id : j \in DOMAIN eps})], e.funs, "functions")
  /\ Same(eps, e.eps, "entry points")
  /\ Same([k \in DOMAIN ca |-> <<ca[k][1], ca[k][3][3][2]>>], e.calls, "calls")
  \* asking for what is there: an instruction that stands for the same is returned, none is added
  /\ \A k \in DOMAIN e.again : LET x == e.again[k] IN
       /\ Chk(x[4] = 0, <<"declared again", x, D[x[2]]>>)
       /\ Chk(x[3] \in DOMAIN D /\ D[x[3]] = D[x[2]], <<"another is returned", x>>)
================================================================================
