-------------------------- MODULE Trace_Reflection ----------------------------
(* One event per module: the module and the answers to queries about it.        *)
EXTENDS Reflection, TraceBase
VARIABLES l
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Trace[l].ev = "refl" /\ \A k \in DOMAIN Trace[l].qs : Check(Answer(Trace[l].m, Trace[l].qs[k]), <<"answer", Trace[l].qs[k]>>)
TraceSpec == TraceInit /\ [][TraceNext]_l
===============================================================================
