--------------------------- MODULE Trace_HashMaps ----------------------------
EXTENDS HashMaps, TraceBase
VARIABLE l
tvars == <<maps, cls, l>>
e == Trace[l]
m == e.m
\* p.it: iteration <<key, value, node>>*; p.q[k+1]: what the lookups of key k say
One(p, s) ==
  /\ Check(p.n = Len(s), <<"elements", p.n, Len(s)>>)
  /\ Check(Len(p.it) = Len(s) /\ ToSet(p.it) = ToSet(s), <<"iteration", p.it, s>>)
  /\ \A k \in 0..(Len(cls) - 1) :
       LET c == Of(s, k)  r == p.q[k + 1] IN
       /\ Check(Of(p.it, k) = c, <<"iteration order of equal keys", k, p.it, s>>)
       /\ Check(r.c = Len(c), <<"count", k, r.c, s>>)
       /\ Check(r.g = IF c = <<>> THEN <<>> ELSE <<V(c[1])>>, <<"get", k, r.g, s>>)
       /\ Check(r.x = r.g, <<"operator[]", k, r.x, s>>)
       /\ Check(r.f = IF c = <<>> THEN <<>> ELSE <<c[1]>>, <<"find", k, r.f, s>>)
       /\ Check(r.r = c, <<"getRange", k, r.r, s>>)
  /\ \A v \in 1..Len(p.fk) :
       LET ks == {K(s[i]) : i \in {j \in DOMAIN s : V(s[j]) = v}} IN
       Check(IF ks = {} THEN p.fk[v] = -1 ELSE p.fk[v] \in ks, <<"findKey", v, p.fk[v], s>>)
Observed == /\ One(e.a, maps'["a"]) /\ One(e.b, maps'["b"])
            /\ Check(e.live = Len(maps'["a"]) + Len(maps'["b"]), <<"live values", e.live>>)
            /\ Check(e.bad = 0, "value lifetime or storage accounting")
Step ==
  \/ e.op = "em" /\ Insert(m, e.k, e.v, e.node)
  \/ e.op = "eu" /\ Check(HasKey(m, e.k) => e.node = Nd(Of(maps[m], e.k)[1]), <<"unique insert returns", e.node>>) /\ InsertUnique(m, e.k, e.v, e.node)
  \/ e.op = "er" /\ EraseFirst(m, e.k) /\ Check(e.ret = 1, "erase returns a wrong position")
  \/ e.op = "ra" /\ EraseAll(m, e.k) /\ Check(e.ret = Len(Of(maps[m], e.k)), <<"eraseRange returns", e.ret>>)
  \/ e.op = "cl" /\ Clear(m)
  \/ e.op = "ma" /\ MoveAssign(m)
  \/ e.op = "st" /\ Store(m, e.k, e.v)
  \/ e.op = "mt" /\ Keep
TraceInit == Init0(<<0>>) /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ \/ Trace[l].ev = "reset" /\ cls' = e.cls /\ maps' = [n \in Names |-> <<>>]
                \/ e.ev = "op" /\ Step /\ Observed
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
