-------------------------------- MODULE Graphs --------------------------------
(* Generic graphs, control flow graphs, call graphs and expression graphs.      *)
EXTENDS Modules
---------------------------------------------------------------- \* generic graph
\* a graph: ns the nodes in order, data, out and in: what is attached to each
\* node; an edge <<other node, data>> is known at both ends
EmptyG == [ns |-> <<>>, data |-> <<>>, out |-> <<>>, in |-> <<>>]
NodesOf(g) == {g.ns[k] : k \in DOMAIN g.ns}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Cut(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Emplace(g, i, d) == [ns |-> Append(g.ns, i), data |-> Put(g.data, i, d), out |-> Put(g.out, i, <<>>), in |-> Put(g.in, i, <<>>)]
Connect(g, a, b, x) == LET o == [g EXCEPT !.out[a] = Append(@, <<b, x>>)] IN [o EXCEPT !.in[b] = Append(@, <<a, x>>)]
FirstAt(s, e) == LET D == {k \in DOMAIN s : s[k] = e} IN IF D = {} THEN 0 ELSE CHOOSE k \in D : \A y \in D : k <= y
DropAt(s, k) == IF k = 0 THEN s ELSE SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Drop(s, e) == DropAt(s, FirstAt(s, e))
Edges(g, a, b) == {g.out[a][k][2] : k \in {j \in DOMAIN g.out[a] : g.out[a][j][1] = b}}
\* one edge a -> b with data x goes, at both ends
Disconnect(g, a, b, x) == LET o == [g EXCEPT !.out[a] = Drop(@, <<b, x>>)] IN [o EXCEPT !.in[b] = Drop(@, <<a, x>>)]
EraseNode(g, i) == LET keep(e) == e[1] # i
                       A == NodesOf(g) \ {i} IN
  [ns |-> SelectSeq(g.ns, LAMBDA x : x # i), data |-> Cut(g.data, i), out |-> [a \in A |-> SelectSeq(g.out[a], keep)], in |-> [a \in A |-> SelectSeq(g.in[a], keep)]]
After(g, i) == LET k == CHOOSE k \in DOMAIN g.ns : g.ns[k] = i IN IF k = Len(g.ns) THEN 0 ELSE g.ns[k + 1]
CountIn(s, e) == Cardinality({k \in DOMAIN s : s[k] = e})
Symmetric(g) == /\ DOMAIN g.out = NodesOf(g) /\ DOMAIN g.in = NodesOf(g) /\ DOMAIN g.data = NodesOf(g) /\ Cardinality(NodesOf(g)) = Len(g.ns)
                /\ \A a \in NodesOf(g) : \A k \in DOMAIN g.out[a] : g.out[a][k][1] \in NodesOf(g) /\ CountIn(g.in[g.out[a][k][1]], <<a, g.out[a][k][2]>>) = CountIn(g.out[a], g.out[a][k])
                /\ \A a \in NodesOf(g) : \A k \in DOMAIN g.in[a] : g.in[a][k][1] \in NodesOf(g) /\ CountIn(g.out[g.in[a][k][1]], <<a, g.in[a][k][2]>>) = CountIn(g.in[a], g.in[a][k])
---------------------------------------------------------------- \* control flow
\* what branches of a terminator lead to: labels
IsTerm(i) == i[2] \in {249, 250, 251, 252, 253, 254, 255, 4416, 5380}
Term(b) == IF b.ins # <<>> /\ IsTerm(b.ins[Len(b.ins)]) THEN <<b.ins[Len(b.ins)]>> ELSE <<>>
Labels(f) == {f.bbs[k].lab[1] : k \in DOMAIN f.bbs}
TargetsOf(b, L) == IF Term(b) = <<>> THEN <<>> ELSE LET s == SelectSeq(Term(b)[1][3], LAMBDA o : o[1] \in {"i", "b"} /\ o[2] \in L) IN [k \in DOMAIN s |-> s[k][2]]
\* a graph as recorded: nodes in any order, edges as pairs in any order from the outputs and from the inputs
FlowOk(f, ns, outs, ins) == LET L == Labels(f) IN
  /\ {ns[k] : k \in DOMAIN ns} = L /\ Len(ns) = Cardinality(L)
  /\ BagEq(outs, ins)
  /\ \A k \in DOMAIN f.bbs : LET a == f.bbs[k].lab[1]  T == TargetsOf(f.bbs[k], L) IN
       \A b \in L : LET c == CountIn(outs, <<a, b>>) IN IF CountIn(T, b) = 0 THEN c = 0 ELSE c >= 1 /\ c <= CountIn(T, b)
  /\ \A k \in DOMAIN outs : outs[k][1] \in L
BranchesOk(f, lab, ts) == \E k \in DOMAIN f.bbs : f.bbs[k].lab[1] = lab /\ LET T == TargetsOf(f.bbs[k], Labels(f)) IN {ts[x] : x \in DOMAIN ts} = {T[x] : x \in DOMAIN T} /\ Len(ts) <= Len(T)
---------------------------------------------------------------- \* calls
Body(f) == Flat([k \in DOMAIN f.bbs |-> f.bbs[k].ins])
CallsIn(f) == SelectSeq(Body(f), LAMBDA i : i[2] = 57)
FunNo(m, fn) == CHOOSE k \in DOMAIN m.funs : m.funs[k].fn[1] = fn
Callee(i) == i[3][3][2]
RECURSIVE Reached(_, _)
Reached(m, S) == LET N == S \cup UNION {{Callee(CallsIn(m.funs[FunNo(m, fn)])[k]) : k \in DOMAIN CallsIn(m.funs[FunNo(m, fn)])} : fn \in S} IN IF N = S THEN S ELSE Reached(m, N)
CallEdges(m, S) == {<<fn, Callee(i), i[1]>> : <<fn, i>> \in UNION {{<<fn, CallsIn(m.funs[FunNo(m, fn)])[k]>> : k \in DOMAIN CallsIn(m.funs[FunNo(m, fn)])} : fn \in S}}
CallsOk(m, root, ns, outs, ins) == LET S == Reached(m, {root})  X == CallEdges(m, S) IN
  /\ {ns[k] : k \in DOMAIN ns} = S /\ Len(ns) = Cardinality(S)
  /\ BagEq(outs, ins) /\ {outs[k] : k \in DOMAIN outs} = X /\ Len(outs) = Cardinality(X)
---------------------------------------------------------------- \* expressions
\* in[k]: the inputs of node k in the order they were connected; done: evaluated nodes
InsOf(in, k) == {in[k][j] : j \in DOMAIN in[k]}
RECURSIVE Open(_, _, _)
Open(in, done, S) == LET N == S \cup (UNION {InsOf(in, k) : k \in S} \ done) IN IF N = S THEN S ELSE Open(in, done, N)
\* what has to run to evaluate node k, and in which orders it may
Needed(in, done, k) == Open(in, done, {k})
InOrder(in, done, run) == \A p \in DOMAIN run : InsOf(in, run[p]) \subseteq done \cup {run[q] : q \in 1..(p - 1)}
RunOk(in, done, k, run) ==
  /\ Cardinality({run[p] : p \in DOMAIN run}) = Len(run) /\ InOrder(in, done, run)
  /\ IF k \in done THEN {run[p] : p \in DOMAIN run} \cap done = {} ELSE {run[p] : p \in DOMAIN run} = Needed(in, done, k)
\* explicit orders stop at the first node evaluated before
ExplicitRun(done, order) ==
  LET bad == {p \in DOMAIN order : order[p] \in done \cup {order[q] : q \in 1..(p - 1)}} IN
  IF bad = {} THEN order ELSE SubSeq(order, 1, (CHOOSE p \in bad : \A q \in bad : p <= q) - 1)
===============================================================================
