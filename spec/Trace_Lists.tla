----------------------------- MODULE Trace_Lists -----------------------------
(* Checks recorded executions of the real list against Lists.                 *)
EXTENDS Lists, TraceBase
VARIABLE l
tvars == <<lst, det, l>>

e == Trace[l]
\* the recorded projection: [a |-> <<<<id, v>>...>>, b |-> ..., d |-> ...]
Proj == [a |-> e.a.f, b |-> e.b.f]

ListOk(p, s) ==
  /\ Check(p.f = s, <<"forward", p.f, s>>)
  /\ Check(p.r = Reverse(s), <<"backward", p.r, s>>)
  /\ Check(p.n = Len(s), <<"size", p.n, s>>)
  /\ Check(p.e = (s = <<>>), <<"empty", p.e, s>>)
  /\ s # <<>> => Check(p.h = Val(s[1]) /\ p.t = Val(s[Len(s)]), <<"front/back", p, s>>)

Observed == /\ ListOk(e.a, lst'["a"]) /\ ListOk(e.b, lst'["b"])
            /\ Check(e.live = Len(lst'["a"]) + Len(lst'["b"]) + Len(det'), <<"live elements", e.live>>)
            /\ Check(e.bad = 0, "element lifetime")
            /\ Check(e.eq = (Vals(lst'["a"]) = Vals(lst'["b"])), "equality")

\* ids of new nodes are read off the projection
NewId(k, i) == IF i \in DOMAIN Proj[k] THEN Id(Proj[k][i]) ELSE 0
x == e.l
Step ==
  \/ e.op = "eb" /\ PushBack(x, e.v, NewId(x, Len(Proj[x]))) /\ Check(e.ret = Len(lst'[x]) - 1, "ret")
  \/ e.op = "ef" /\ PushFront(x, e.v, NewId(x, 1)) /\ Check(e.ret = 0, "ret")
  \/ e.op = "ib" /\ InsertBefore(x, e.i, e.v, NewId(x, e.i + 1)) /\ Check(e.ret = e.i, "ret")
  \/ e.op = "ia" /\ InsertAfter(x, e.i, e.v, NewId(x, e.i + 2)) /\ Check(e.ret = e.i + 1, "ret")
  \/ e.op = "er" /\ Erase(x, e.i) /\ Check(e.ret = EraseResult(x, e.i), <<"erase returns", e.ret>>)
  \/ e.op = "ed" /\ Unlink(x, e.i) /\ Check(e.ret = EraseResult(x, e.i), <<"erase returns", e.ret>>)
  \/ e.op = "ap" /\ LinkBack(x, e.i) /\ Check(e.ret = Len(lst'[x]) - 1, "ret")
  \/ e.op = "pp" /\ LinkFront(x, e.i) /\ Check(e.ret = 0, "ret")
  \/ e.op = "pb" /\ PopBack(x) /\ Check(e.ret = Val(lst[x][Len(lst[x])]), <<"pop_back", e.ret>>)
  \/ e.op = "pf" /\ PopFront(x) /\ Check(e.ret = Val(lst[x][1]), <<"pop_front", e.ret>>)
  \/ e.op = "cl" /\ Clear(x)
  \/ e.op = "ca" /\ CopyAssign(x, [i \in DOMAIN Proj[x] |-> Id(Proj[x][i])])
  \/ e.op = "sa" /\ SelfAssign(x)
  \/ e.op = "ma" /\ MoveAssign(x)
  \/ e.op = "mt" /\ MoveThrough(x)
  \/ e.op = "cc" /\ Query /\ Check(e.copy = Vals(lst[x]), <<"copy", e.copy>>)
  \/ e.op = "fi" /\ Query /\ Check(e.ret = FindIdx(lst[x], e.v) /\ e.pred = e.ret /\ e.has = (e.ret >= 0), <<"find", e>>)

TraceInit == LInit /\ l = 1
Reset == e.ev = "reset" /\ lst' = [k \in Names |-> <<>>] /\ det' = <<>>
\* prefix steps of a generated script carry no projection but the ids they need
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ \/ Reset
                \/ e.ev = "op" /\ Step /\ Observed
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
