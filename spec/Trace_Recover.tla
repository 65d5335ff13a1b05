---------------------------- MODULE Trace_Recover ------------------------------
EXTENDS Recover, TraceBase
VARIABLE l
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Trace[l].ev = "read" /\ Recovered(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
