---------------------------- MODULE Trace_Printer ----
EXTENDS Printer, TraceBase
VARIABLE l
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Trace[l].ev = "print" /\ Printed(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
