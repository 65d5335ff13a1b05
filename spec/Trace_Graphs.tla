----------------------------- MODULE Trace_Graphs -----------------------------
(* Sessions with generic and expression graphs, and the control flow and call    *)
(* graphs of recorded modules.                                                   *)
EXTENDS Graphs, TraceBase
VARIABLES l, g, ex
tvars == <<l, g, ex>>
e == Trace[l]
Fun(a) == [k \in {a[j][1] : j \in DOMAIN a} |-> LET j == CHOOSE j \in DOMAIN a : a[j][1] = k IN a[j][2]]
\* the projection of the real graph: nodes with data, outputs, inputs in order
Seen(p) == [ns |-> [k \in DOMAIN p |-> p[k].id], data |-> [i \in {p[k].id : k \in DOMAIN p} |-> p[CHOOSE k \in DOMAIN p : p[k].id = i].d],
            out |-> [i \in {p[k].id : k \in DOMAIN p} |-> p[CHOOSE k \in DOMAIN p : p[k].id = i].o], in |-> [i \in {p[k].id : k \in DOMAIN p} |-> p[CHOOSE k \in DOMAIN p : p[k].id = i].i]]
Ends == Check(e.n = Len(g'.ns) /\ e.empty = (g'.ns = <<>>) /\ (g'.ns # <<>> => e.front = g'.ns[1] /\ e.back = g'.ns[Len(g'.ns)]), "size or ends")
Shows(x) == Check(Seen(e.g) = x, <<"graph", e.g, x>>)
GStep ==
  /\ CASE e.op = "n" -> g' = Emplace(g, e.a, e.a)
       [] e.op = "c" -> g' = Connect(g, e.a, e.b, e.x)
       [] e.op = "d" -> (IF Edges(g, e.a, e.b) = {} THEN g' = g ELSE \E x \in Edges(g, e.a, e.b) : g' = Disconnect(g, e.a, e.b, x) /\ Seen(e.g) = g')
       [] e.op = "e" -> g' = EraseNode(g, e.a) /\ Check(e.ret = After(g, e.a), "erase returns the next node")
       [] e.op = "x" -> g' = EmptyG
       [] OTHER -> g' = g
  /\ Shows(g') /\ Ends /\ UNCHANGED ex
\* runs: <<node, inputs it was given, outputs it was given>>
Ran == [k \in DOMAIN e.ran |-> e.ran[k][1]]
Given == \A k \in DOMAIN e.ran : LET n == e.ran[k][1] IN Check(e.ran[k][2] = ex.in[n] /\ e.ran[k][3] = ex.out[n], <<"inputs or outputs given to", e.ran[k]>>)
XStep ==
  /\ UNCHANGED g /\ Given
  /\ ex' = [ex EXCEPT !.done = IF e.op = "reset" THEN {} ELSE @ \cup {Ran[k] : k \in DOMAIN Ran}]
  /\ Check({e.done[k] : k \in DOMAIN e.done} = ex'.done, <<"evaluated", e.done>>)
  /\ CASE e.op = "rec" -> Check(RunOk(ex.in, ex.done, e.k, Ran), <<"recursive evaluation", Ran>>)
       [] e.op = "exp" -> Check(Ran = ExplicitRun(ex.done, e.o) /\ e.ok = (Len(Ran) = Len(e.o)), <<"explicit evaluation", Ran, e.ok>>)
       [] OTHER -> Check(Ran = <<>>, "nothing runs")
Flow == /\ \A k \in DOMAIN e.fl : LET q == e.fl[k]  f == e.m.funs[FunNo(e.m, q.f)] IN
             /\ Check(FlowOk(f, q.ns, q.o, q.i), <<"control flow graph", q>>)
             /\ \A j \in DOMAIN q.br : Check(BranchesOk(f, q.br[j][1], q.br[j][2]), <<"branch targets", q.br[j]>>)
        /\ \A k \in DOMAIN e.ca : LET q == e.ca[k] IN Check(CallsOk(e.m, q.f, q.ns, q.o, q.i), <<"call graph", q>>)
        /\ UNCHANGED <<g, ex>>
TraceInit == l = 1 /\ g = EmptyG /\ ex = [in |-> <<>>, out |-> <<>>, done |-> {}]
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ CASE e.ev = "begin" -> g' = EmptyG /\ ex' = [in |-> e.in, out |-> e.out, done |-> {}]
                  [] e.ev = "g" -> GStep
                  [] e.ev = "x" -> XStep
                  [] e.ev = "prog" -> Flow
TraceSpec == TraceInit /\ [][TraceNext]_tvars
===============================================================================
