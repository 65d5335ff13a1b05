-------------------------- MODULE Trace_Structured ---------------------------
(* e.tree: the text; e.cn: constants that mark operations; e.order: blocks in  *)
(* list order; e.bbs: <<label, instructions>>; e.ord: whether order is claimed *)
EXTENDS Structured, TraceBase
VARIABLE l
e == Trace[l]
FunOf(bbs) == [b \in {bbs[i][1] : i \in DOMAIN bbs} |-> bbs[CHOOSE i \in DOMAIN bbs : bbs[i][1] = b][2]]
Line ==
  LET F == FunOf(e.bbs)  m == Match(F, e.bbs[1][1], e.cn, e.tree)
      order == [i \in DOMAIN e.bbs |-> e.bbs[i][1]] IN
  /\ Check(Cardinality(DOMAIN F) = Len(e.bbs), "two blocks share a label")
  /\ Check(OneTerminator(F), "a block does not end in exactly one terminator")
  /\ Check(WellFormed(F), "control flow is not well formed")
  /\ Check(m.ok, m.why)
  /\ Check(e.ord => OrderOk(F, order), <<"block order", order>>)
  /\ Check(e.errors = 0 /\ e.written, <<"errors", e.errors, "written", e.written>>)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Line
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
