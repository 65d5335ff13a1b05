---------------------------- MODULE Trace_TypeInfo ----------------------------
(* recorded sessions of type descriptions *)
EXTENDS TypeInfo, TraceBase
VARIABLES l, S
e == Trace[l]
TraceInit == l = 1 /\ S = <<>>
Begin == e.ev = "begin" /\ S' = [k \in 1..e.slots |-> VoidT]
Do ==
  /\ e.ev = "step"
  /\ e.op[1] = "fmt" => Check(e.made \in OfFormat(e.op[3], e.op[4]), <<"type of an image format", e.op, e.made>>)
  /\ LET T == Step(S, e.op, e.made)  n == Len(S) IN
     /\ Check(e.st = T, <<"descriptions after", e.op, e.st, "expected", T>>)
     /\ Check(\A i, j \in 1..n : e.eq[(i - 1) * n + j] = (T[i] = T[j]), <<"equality of", T, e.eq>>)
     /\ S' = T
Image ==
  /\ e.ev = "image" /\ S' = <<>>
  /\ Check(\A f \in DOMAIN e.channels : e.channels[f] = ChannelsOf(f - 1), <<"channels of the image formats", e.channels, [f \in DOMAIN e.channels |-> ChannelsOf(f - 1)]>>)
  /\ Check(\A d \in DOMAIN e.coordinates : e.coordinates[d] = CoordinatesOf(d - 1), <<"dimensions", e.coordinates>>)
Right(q) == Free(q[1], S[e.i]) \/ q[3] = Answer(q[1], q[2], S[e.i], S[e.j])
Ask == e.ev = "ask" /\ (\A k \in DOMAIN e.q : Check(Right(e.q[k]), <<"of", S[e.i], S[e.j], e.q[k], "expected", Answer(e.q[k][1], e.q[k][2], S[e.i], S[e.j])>>)) /\ S' = S
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Do \/ Ask \/ Image)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, S>>
===============================================================================
