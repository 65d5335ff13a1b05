------------------------------- MODULE Trace_Walks -----------------------------
(* one line per module: walks over it, lookups in it, what its instructions say    *)
EXTENDS Walks, TraceBase
VARIABLE l
e == Trace[l]
Line ==
  /\ \A k \in DOMAIN e.walks : LET w == e.walks[k]  r == Walk(e.m, w.at, w.op) IN
       /\ Check(w.seen = r.seen, <<w.how, "saw", w.seen, "wanted", r.seen>>)
       /\ Check(w.ret = (IF w.how = "void" \/ w.how = "const void" THEN Broken(e.m) ELSE r.ret), <<w.how, "returned", w.ret, w.at, w.op>>)
       /\ Check(w.err = r.err, <<w.how, "errors", w.err>>)
  /\ \A k \in DOMAIN e.ids : Check(e.ids[k][2] = ById(e.m, e.ids[k][1]), <<"getInstructionById", e.ids[k], ById(e.m, e.ids[k][1])>>)
  /\ LET a == All(e.m) IN
     /\ Check(Len(e.facts) = Len(a), "an instruction is missing")
     /\ \A k \in DOMAIN a : Check(e.facts[k] = Facts(a[k]), <<"instruction", a[k], "says", e.facts[k], "wanted", Facts(a[k])>>)
  \* the end of a block
  /\ LET bs == Flat([k \in DOMAIN e.m.funs |-> e.m.funs[k].bbs]) IN
     Check(e.ends = [k \in DOMAIN bs |-> IF Ended(bs[k]) THEN bs[k].ins[Len(bs[k].ins)][1] ELSE 0], <<"getTerminator", e.ends>>)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Line
TraceSpec == TraceInit /\ [][TraceNext]_l
================================================================================
