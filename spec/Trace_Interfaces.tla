--------------------------- MODULE Trace_Interfaces ----------------------------
(* After every finalisation: the whole module, and what the accessor of every   *)
(* entry point returns.                                                         *)
EXTENDS Interfaces, Modules, Literals, TraceBase
VARIABLES l, eps
tvars == <<l, eps>>
e == Trace[l]
RefsOf(i) == {i[3][k][2] : k \in {x \in DOMAIN i[3] : i[3][x][1] = "i"}}
Body(f) == Flat([k \in DOMAIN f.bbs |-> f.bbs[k].ins])
CallsOf(f) == LET b == Body(f) IN {b[k][3][3][2] : k \in {x \in DOMAIN b : b[x][2] = 57}}
\* entry point instruction: model, function, words of the name, interface
Words(o) == SelectSeq(o, LAMBDA x : x[1] = "l")
EpModel(i) == i[3][1]
EpFun(i) == i[3][2]
EpName(i) == StrOf([k \in 1..(Len(Words(i[3])) - 1) |-> LET x == Words(i[3])[k + 1] IN <<x[2], x[3]>>])
Io(i) == SelectSeq(Tail(Tail(i[3])), LAMBDA x : x[1] # "l")
Minor(m) == m.ver[2] \div 256
Final ==
  e.ev = "fin" /\
  LET m == e.m
      V == {m.vars[k][1] : k \in DOMAIN m.vars}
      storage == [v \in V |-> LET i == m.vars[CHOOSE k \in DOMAIN m.vars : m.vars[k][1] = v] IN i[3][3][3]]
      F == {m.funs[k].fn[1] : k \in DOMAIN m.funs}
      at == [f \in F |-> m.funs[CHOOSE k \in DOMAIN m.funs : m.funs[k].fn[1] = f]]
      calls == [f \in F |-> CallsOf(at[f]) \cap F]
      uses == [f \in F |-> LET b == Body(at[f]) IN UNION {RefsOf(b[k]) : k \in DOMAIN b} \cap V]
      ep == [k \in DOMAIN m.eps |-> <<EpModel(m.eps[k]), EpFun(m.eps[k]), EpName(m.eps[k])>>] IN
  /\ \A k \in DOMAIN m.eps :
       LET io == Io(m.eps[k])  s == {io[x] : x \in DOMAIN io}  f == EpFun(m.eps[k])[2]
           want == Wanted(f, calls, uses, storage, Minor(m)) IN
       /\ Check(Cardinality(s) = Len(io), <<"listed twice", io>>)
       /\ Check(s = {<<"i", v>> : v \in want}, <<"entry point", k, "version", Minor(m), "missing", {v \in want : <<"i", v>> \notin s}, "not wanted", {x \in s : x[2] \notin want}>>)
       /\ Check(e.acc[k] = [x \in DOMAIN io |-> io[x][2]], <<"getInterfaceVariables", e.acc[k], io>>)
  /\ Check(eps = <<>> \/ e.new \/ eps = ep, <<"entry point changed", eps, ep>>)
  /\ Check(ep = e.given, <<"entry points", ep, e.given>>)
  /\ Check(e.minor <= Minor(m), <<"version lowered", e.minor>>)
  /\ eps' = ep
Reset == e.ev = "begin" /\ eps' = <<>>
TraceInit == l = 1 /\ eps = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Reset \/ Final)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
================================================================================
