------------------------------ MODULE TraceBase ------------------------------
(* Common part of every trace specification: the recorded events of the real  *)
(* library are read from the file named by the environment variable TRACE;    *)
(* a trace specification consumes one line per step.                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* all lines consumed <=> the recorded execution is a behaviour of the spec   *)
Accepted ==
  /\ PrintT(<<"DIAMETER", TLCGet("stats").diameter - 1, Len(Trace)>>)
  /\ TLCGet("stats").diameter - 1 = Len(Trace)

(* a failing conjunct says why                                                *)
Check(ok, what) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", what>>) /\ FALSE

ToSet(s) == {s[i] : i \in DOMAIN s}
Has(r, f) == f \in DOMAIN r
=============================================================================
