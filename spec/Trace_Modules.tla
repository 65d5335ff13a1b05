--------------------------- MODULE Trace_Modules -----------------------------
(* one line per module written: e.m the module, e.w the words                  *)
EXTENDS Modules, TraceBase
VARIABLE l
e == Trace[l]
Line ==
  CASE e.ev = "write" ->
         /\ Check(e.ok /\ e.errors = 0, <<"write", e.ok, e.errors, e.last>>)
         /\ WriteOk(e.m, e.w)
    [] e.ev = "ids" ->
         /\ Check(e.errors = 0, <<"errors", e.last>>)
         /\ Check(IdsOk(Ids(e.m), e.m.bound[1] * 65536 + e.m.bound[2]), <<"ids are not exactly 1..bound-1", e.m.bound, Ids(e.m)>>)
         /\ Check(e.max = e.m.bound[1] * 65536 + e.m.bound[2] - 1, <<"assignIDs returned", e.max>>)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Line
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
