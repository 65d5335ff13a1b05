----------------------------- MODULE Trace_Names ------------------------------
EXTENDS Names, TraceBase
VARIABLES l, N, K
e == Trace[l]
TraceInit == l = 1 /\ N = <<>> /\ K = <<>>
Reset == e.ev = "reset" /\ N' = e.n /\ K' = e.k
Step ==
  /\ e.ev = "step"
  /\ Check(Legal(K, e.s) = (e.err = 0), <<"errors", e.err, "for", e.s>>)
  /\ Check(Ok(N, e.s, e.r), <<"answer", e.r, "to", e.s, "names", N>>)
  /\ N' = Effect(N, K, e.s) /\ UNCHANGED K
Final ==
  /\ e.ev = "end"
  /\ Check(Bag(e.names) = Bag(Emit(N)), <<"name instructions", e.names, "names", N>>)
  /\ UNCHANGED <<N, K>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Reset \/ Step \/ Final)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, N, K>>
=============================================================================
