------------------------------- MODULE MC_Graphs ------------------------------
(* Histories of generic graphs, expression graphs under evaluation and reset,    *)
(* and small programs whose control flow and calls are collected block by block  *)
(* as the constructors of the graphs do.  Mode: 1 graph, 2 expressions, 3 flow,  *)
(* 4 calls.                                                                      *)
EXTENDS Graphs, Json
CONSTANTS Mode, Depth, Emit
VARIABLES g, h, ex, pr
vars == <<g, h, ex, pr>>
Data == {7, 8}
Hist(o) == h' = Append(h, o) /\ UNCHANGED <<ex, pr>>
GEmplace == Mode = 1 /\ Len(h) < Depth /\ Len(g.ns) < 3 /\ LET i == Cardinality({k \in DOMAIN h : h[k][1] = "n"}) + 1 IN g' = Emplace(g, i, i) /\ Hist(<<"n", i, 0, 0>>)
GConnect == Mode = 1 /\ Len(h) < Depth /\ \E a, b \in NodesOf(g), x \in Data : g' = Connect(g, a, b, x) /\ Hist(<<"c", a, b, x>>)
GDisconnect == Mode = 1 /\ Len(h) < Depth /\ \E a, b \in NodesOf(g) : IF Edges(g, a, b) = {} THEN g' = g /\ Hist(<<"d", a, b, 0>>)
                  ELSE LET k == CHOOSE k \in DOMAIN g.out[a] : g.out[a][k][1] = b /\ \A j \in 1..(k - 1) : g.out[a][j][1] # b IN g' = Disconnect(g, a, b, g.out[a][k][2]) /\ Hist(<<"d", a, b, 0>>)
GErase == Mode = 1 /\ Len(h) < Depth /\ \E a \in NodesOf(g) : g' = EraseNode(g, a) /\ Hist(<<"e", a, 0, 0>>)
GMove == Mode = 1 /\ Len(h) < Depth /\ g.ns # <<>> /\ UNCHANGED g /\ \E k \in {1, 2} : Hist(<<"m", k, 0, 0>>)
GClear == Mode = 1 /\ Len(h) < Depth /\ g.ns # <<>> /\ g' = EmptyG /\ Hist(<<"x", 0, 0, 0>>)
---------------------------------------------------------------- \* expressions
\* ex = [in, done, ran]: evaluation as the implementation does it, depth first
RECURSIVE Dfs(_, _, _), DfsAll(_, _, _)
Dfs(in, done, k) == LET r == DfsAll(in, done, in[k]) IN IF k \in r[1] THEN r ELSE <<r[1] \cup {k}, Append(r[2], k)>>
DfsAll(in, done, s) == IF s = <<>> THEN <<done, <<>>>> ELSE
  IF s[1] \in done THEN DfsAll(in, done, Tail(s)) ELSE LET r == Dfs(in, done, s[1])  q == DfsAll(in, r[1], Tail(s)) IN <<q[1], r[2] \o q[2]>>
N == 4
Inputs == {in \in [1..N -> {<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<1, 1>>, <<3>>, <<1, 3>>, <<3, 1>>, <<1, 2, 3>>}] : \A k \in 1..N : \A j \in DOMAIN in[k] : in[k][j] < k}
XRec == Mode = 2 /\ Len(h) < Depth /\ \E k \in 2..N : LET r == Dfs(ex.in, ex.done, k) IN ex' = [ex EXCEPT !.done = r[1], !.ran = <<k, ex.done, r[2]>>] /\ h' = Append(h, <<"rec", k>>) /\ UNCHANGED <<g, pr>>
Orders == {<<1, 2>>, <<2, 1>>, <<1, 1>>, <<2, 3, 2>>, <<1, 2, 3, 4>>, <<>>, <<4>>}
XExp == Mode = 2 /\ Len(h) < Depth /\ \E o \in Orders : LET r == ExplicitRun(ex.done, o) IN ex' = [ex EXCEPT !.done = @ \cup {r[k] : k \in DOMAIN r}, !.ran = <<>>] /\ h' = Append(h, <<"exp", o>>) /\ UNCHANGED <<g, pr>>
XReset == Mode = 2 /\ Len(h) < Depth /\ h # <<>> /\ ex' = [ex EXCEPT !.done = {}, !.ran = <<>>] /\ h' = Append(h, <<"reset", 0>>) /\ UNCHANGED <<g, pr>>
---------------------------------------------------------------- \* programs
\* control flow: a terminator per block, <<"none">>, <<"ret">>, <<"br", a>>, <<"if", a, b>>, <<"sw", default, cases...>>
Terms == {<<"none">>, <<"ret">>} \cup {<<"br", a>> : a \in 1..3} \cup {<<"if", a, b>> : a, b \in 1..3} \cup {<<"sw", a>> : a \in 1..3} \cup {<<"sw", a, b, c>> : a \in 1..3, b \in {2, 3}, c \in {1, 2, 3}}
TermInstr(t, n) == CASE t[1] = "none" -> <<n, 0, <<>>>> [] t[1] = "ret" -> <<n, 253, <<>>>> [] t[1] = "br" -> <<n, 249, <<<<"b", t[2]>>>>>>
  [] t[1] = "if" -> <<n, 250, <<<<"i", 90>>, <<"b", t[2]>>, <<"b", t[3]>>>>>>
  [] t[1] = "sw" -> <<n, 251, <<<<"i", 91>>, <<"b", t[2]>>>> \o Flat([k \in 1..(Len(t) - 2) |-> <<<<"l", 0, k>>, <<"b", t[k + 2]>>>>])>>
FlowFun == [fn |-> <<80, 54, <<>>>>, ps |-> <<>>, end |-> <<81, 56, <<>>>>, bbs |-> [k \in 1..3 |-> [lab |-> <<k, 248, <<>>>>, ins |-> <<TermInstr(pr.prog[k], 10 + k)>>]]]
\* calls: the sequence of callees of each function
CallMod == [funs |-> [k \in 1..3 |-> [fn |-> <<k, 54, <<>>>>, ps |-> <<>>, end |-> <<80 + k, 56, <<>>>>, bbs |-> <<[lab |-> <<10 + k, 248, <<>>>>, ins |-> [j \in DOMAIN pr.prog[k] |-> <<20 * k + j, 57, <<<<"i", 99>>, <<"d", 0>>, <<"i", pr.prog[k][j]>>>>>>]]>>]]]
CallSeqs == {<<>>} \cup {<<a>> : a \in 1..3} \cup {<<a, b>> : a, b \in 1..3}
See(s, k) == IF k \in {s[x] : x \in DOMAIN s} THEN s ELSE Append(s, k)
RECURSIVE SeeAll(_, _)
SeeAll(s, t) == IF t = <<>> THEN s ELSE SeeAll(See(s, t[1]), Tail(t))
\* the constructor of control flow graphs: block after block
PFlow == Mode = 3 /\ pr.k <= 3 /\ LET t == pr.prog[pr.k]  T == Tail(t) IN
           pr' = [pr EXCEPT !.ns = SeeAll(See(@, pr.k), T), !.es = @ \o [j \in DOMAIN T |-> <<pr.k, T[j]>>], !.k = @ + 1] /\ UNCHANGED <<g, h, ex>>
\* and of call graphs: a function that is seen the first time is looked through
RECURSIVE Look(_, _, _, _)
Look(st, prog, f, j) == IF j > Len(prog[f]) THEN st ELSE
  LET c == prog[f][j]  new == c \notin {st.ns[x] : x \in DOMAIN st.ns}
      s1 == IF new THEN Look([st EXCEPT !.ns = Append(@, c)], prog, c, 1) ELSE st IN
  Look([s1 EXCEPT !.es = Append(@, <<f, c, 20 * f + j>>)], prog, f, j + 1)
PCall == Mode = 4 /\ pr.k = 1 /\ LET st == Look([pr EXCEPT !.ns = <<1>>], pr.prog, 1, 1) IN pr' = [st EXCEPT !.k = 4] /\ UNCHANGED <<g, h, ex>>

Init == /\ g = EmptyG /\ h = <<>>
        /\ ex \in (IF Mode = 2 THEN {[in |-> i, done |-> {}, ran |-> <<>>] : i \in Inputs} ELSE {<<>>})
        /\ pr \in (IF Mode = 3 THEN {[prog |-> p, k |-> 1, ns |-> <<>>, es |-> <<>>] : p \in [1..3 -> Terms]} ELSE IF Mode = 4 THEN {[prog |-> p, k |-> 1, ns |-> <<>>, es |-> <<>>] : p \in [1..3 -> CallSeqs]} ELSE {<<>>})
Next == GEmplace \/ GConnect \/ GDisconnect \/ GErase \/ GMove \/ GClear \/ XRec \/ XExp \/ XReset \/ PFlow \/ PCall
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------- \* properties
Sym == Symmetric(g)
Runs == (Mode = 2 /\ ex.ran # <<>>) => RunOk(ex.in, ex.ran[2], ex.ran[1], ex.ran[3])
FlowDone == (Mode = 3 /\ pr.k = 4) => FlowOk(FlowFun, pr.ns, pr.es, pr.es)
CallDone == (Mode = 4 /\ pr.k = 4) => CallsOk(CallMod, 1, pr.ns, pr.es, pr.es)
\* nothing runs again without a reset
OnceRun == [][(Mode = 2 /\ h' # h /\ h'[Len(h')][1] # "reset") => ex.done \subseteq ex'.done]_vars
Out == /\ (Emit /\ Mode = 1 /\ Len(h) = Depth) => PrintT("S " \o ToJson([k |-> "g", h |-> h]))
       /\ (Emit /\ Mode = 2 /\ Len(h) = Depth) => PrintT("S " \o ToJson([k |-> "x", in |-> ex.in, h |-> h]))
       /\ (Emit /\ Mode = 3 /\ pr.k = 1) => PrintT("S " \o ToJson([k |-> "f", p |-> pr.prog]))
       /\ (Emit /\ Mode = 4 /\ pr.k = 1) => PrintT("S " \o ToJson([k |-> "c", p |-> pr.prog]))
===============================================================================
