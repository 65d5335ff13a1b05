----------------------------- MODULE Trace_Binary ------------------------------
EXTENDS Binary, TraceBase
VARIABLE l
e == Trace[l]
Case ==
  e.ev = "case" /\
  LET f == Facts(e.w)  bad == Malformed(f)  good == WellFormed(f, e.w)  dangling == f.tile /\ Dangling(f) IN
  /\ bad => Check(~e.read, <<"malformed, but read", Scope(f.C), {<<f.C[k], f.R[k]>> : k \in {x \in DOMAIN f.C : f.R[x] = Bad}}>>)
  /\ ~e.mut => Check(good, <<"generated binary is not well formed", bad, Scope(f.C), Comparable(f.C), {<<f.C[k], f.R[k]>> : k \in {x \in DOMAIN f.C : f.R[x] = Bad \/ Undecided(f.R[x])}}>>)
  /\ good => Check(e.read, <<"well formed, but not read", e.last>>)
  /\ good /\ ~dangling /\ ~Twice(f) => Check(e.err = 0 /\ e.res, <<"errors reported", e.last>>)
  /\ e.read /\ ~bad /\ Clear(f) =>
       /\ (NoZero(f) /\ Comparable(f.C) => SameBinary(f, e.w, e.v))
       /\ (dangling \/ (Twice(f) /\ Comparable(f.C)) => Check(~e.res /\ ~e.init, "an id is used that is not defined, or defined twice, but resolved"))
       /\ (good /\ e.res => SameRenamed(f, e.w, e.v2, e.ids))
  /\ (bad => Check(~e.init, "malformed, but initialised"))
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Case
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
