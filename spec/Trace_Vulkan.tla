----------------------------- MODULE Trace_Vulkan -----------------------------
(* recorded descriptor types and stages *)
EXTENDS Vulkan, TraceBase
VARIABLES l, s
e == Trace[l]
TraceInit == l = 1 /\ s = Start
Begin == e.ev = "begin" /\ s' = Start
Do == e.ev = "step" /\ s' = Step(s, e.op)
Ask ==
  /\ e.ev = "ask" /\ s' = s
  /\ Check(Len(e.d) = Len(s.vars), <<"number of variables", e.d>>)
  /\ \A i \in DOMAIN e.d : LET x == Descriptor(s.vars, s.buf, i) IN Check(x = Free \/ e.d[i] = x, <<"descriptor type of variable", i, "of", s, "is", e.d[i], "expected", x>>)
  /\ Check(\A i \in DOMAIN e.others : e.others[i] = None, <<"descriptor type of something that is no variable", e.others>>)
Stage == e.ev = "stage" /\ s' = s /\ Check(\A p \in Stages : p[1] # e.model \/ p[2] = e.stage, <<"stage of execution model", e.model, e.stage>>)
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Do \/ Ask \/ Stage)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, s>>
===============================================================================
