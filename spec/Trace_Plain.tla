------------------------------ MODULE Trace_Plain ------------------------------
(* recorded requests judged by the plan                                          *)
EXTENDS Plain, TraceBase
VARIABLE l
e == Trace[l]
P == LET p == Plan(e.h, e.a, e.ver, e.free) IN IF e.spec /\ p.v = "ok" THEN AsSpec(p) ELSE p
Made0 == IF e.spec THEN 0 ELSE P.op
\* a mask that says nothing may be left out
Trim(op, os) == IF op \in {61, 62} /\ os # <<>> /\ os[Len(os)] = Lit(0) THEN SubSeq(os, 1, Len(os) - 1) ELSE os
TraceInit == l = 1
Right ==
  IF P.v = "ok"
  THEN /\ Check(e.op = P.op /\ Trim(Made0, e.os) = Trim(Made0, P.os), <<e.h, e.a, "made", e.op, e.os, "expected", P.op, P.os>>)
       /\ Check(e.ret \in {"self", "void"}, <<e.h, e.a, "does not answer with the instruction", e.ret>>)
       /\ Check(e.errs = 0, <<e.h, e.a, "complaints", e.last>>)
       /\ Check(e.src = P.src /\ e.imp = P.imp, <<e.h, e.a, "strings and sets added", e.src, e.imp, "expected", P.src, P.imp>>)
  ELSE /\ Check(e.kept, <<e.h, e.a, "is refused, but the instruction is now", e.op, e.os>>)
       /\ Check(e.ret \in {"error", "void"}, <<e.h, e.a, "is refused, but answered with", e.ret>>)
       /\ Check(e.errs > 0, <<e.h, e.a, "is refused without a word">>)
       /\ Check(e.src = <<>> /\ e.imp = <<>>, <<e.h, e.a, "strings and sets added", e.src, e.imp>>)
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ Right
  /\ Check(e.more = 0, <<e.h, e.a, "other instructions added to the module", e.more>>)
TraceSpec == TraceInit /\ [][TraceNext]_l
===============================================================================
