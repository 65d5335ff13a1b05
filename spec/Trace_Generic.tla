----------------------------- MODULE Trace_Generic -----------------------------
(* recorded requests judged by the rules *)
EXTENDS Generic, TraceBase
VARIABLES l, top       \* top: type of what was added last to the block (<<>>: nothing to refer to)
e == Trace[l]
TraceInit == l = 1 /\ top = <<>>
Begin == e.ev = "begin" /\ top' = e.t
Request ==
  LET ts == e.ts  r == GRule(e.g, ts, e.scalar) IN
  /\ e.ev = "do"
  /\ Check(e.ret /\ e.order, <<"what is added is not appended to the block, or is not what the request yields", e.g, e.form, ts>>)
  \* the result of the request before is an operand
  /\ Check(e.side = 0 \/ ts[e.side] = top, <<"the type of what was added before", e.g, e.form, ts, top>>)
  /\ Check(Answers(r, e), <<e.g, e.form, ts, "added", e.new, "refused", e.err, "complaints", e.logs, e.last, "expected", r>>)
  /\ top' = IF r.v = "ok" THEN Result(r) ELSE <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Request)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, top>>
===============================================================================
