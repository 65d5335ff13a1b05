----------------------------- MODULE Trace_Typing -----------------------------
(* recorded requests judged by the rules *)
EXTENDS Typing, TraceBase
CONSTANT Judge
VARIABLE l
e == Trace[l]
TraceInit == l = 1
Right ==
  LET r == Rule(e.h, e.ts, e.x) IN
  /\ Check(e.ret /\ e.order /\ e.alone, <<"not only the one instruction is appended and returned", e.h, e.ts>>)
  /\ Check(Emits(r, e), <<e.h, e.ts, e.x, "added", e.new, "refused", e.err, "expected", r, e.last>>)
Decided ==
  LET r == Rule(e.h, e.ts, e.x) IN Check(Decides(r, e), <<e.h, e.ts, e.x, "refused", e.err, "complaints", e.logs, e.last, "added", e.new, "expected", r.v>>)
RawRight ==
  LET r == Rule(e.h, e.ts, e.x) IN
  /\ Check(e.ret /\ e.order /\ e.alone, <<"without the helper: not only the one instruction is appended and returned", e.h, e.ts>>)
  /\ Check(RawEmits(r, e), <<"without the helper", e.h, e.ts, e.x, "added", e.new, "refused", e.err, "expected", r, e.last>>)
RawDecided == LET r == Rule(e.h, e.ts, e.x) IN Check(RawDecides(r, e), <<"without the helper", e.h, e.ts, e.x, "refused", e.err, "complaints", e.logs, e.last, "added", e.new, "expected", r.v>>)
Raw == e.ev = "raw" /\ (IF Judge = "emit" THEN RawRight ELSE RawDecided)
\* checking the operands of an instruction
Valid == e.ev = "valid" /\ (Judge # "emit" => Check(e.ok = Sound(e.op, e.s) /\ (e.ok \/ e.logs > 0), <<"operands of", e.op, e.s, "accepted", e.ok, "complaints", e.logs, e.last>>))
Operation == e.ev = "op" /\ (IF Judge = "emit" THEN Right ELSE Decided)
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Operation \/ Raw \/ Valid)
TraceSpec == TraceInit /\ [][TraceNext]_l
===============================================================================
