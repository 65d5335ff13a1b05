---------------------------- MODULE Trace_Composite ----------------------------
(* recorded requests judged by the rules *)
EXTENDS Composite, TraceBase
VARIABLE l
e == Trace[l]
TraceInit == l = 1
Request ==
  LET r == Access(e.h, e.ts, e.x) IN
  /\ e.ev = "op"
  /\ Check(e.ret /\ e.order /\ e.alone, <<"not only the one instruction is appended and returned", e.h, e.ts, e.x>>)
  /\ Check(Emits(r, e) /\ Decides(r, e), <<e.h, e.ts, e.x, "added", e.new, "refused", e.err, "complaints", e.logs, e.last, "expected", r>>)
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Request
TraceSpec == TraceInit /\ [][TraceNext]_l
===============================================================================
