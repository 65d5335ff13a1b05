--------------------------- MODULE Trace_Functions ----------------------------
EXTENDS FunDecls, TraceBase
VARIABLES l, F, fns, modes
vars == <<l, F, fns, modes>>
e == Trace[l]
TraceInit == l = 1 /\ F = <<>> /\ fns = <<>> /\ modes = <<>>
Reset == e.ev = "reset" /\ F' = <<>> /\ fns' = <<>> /\ modes' = <<>>
Step ==
  /\ e.ev = "step" /\ Enabled(F, e.s)
  /\ IF Legal(F, e.s) THEN Check(e.err = 0, <<"an error was reported for", e.s, e.last>>) ELSE Check(e.err > 0 \/ e.refused, <<"not refused", e.s>>)
  /\ F' = Effect(F, e.s, e)
  /\ fns' = IF e.s[1] \in {"fun", "full"} THEN Append(fns, e.node) ELSE fns
  /\ modes' = IF e.s[1] = "mode" THEN Append(modes, <<fns[e.s[2]], e.s[3], e.s[4]>>) ELSE modes
\* the module afterwards
End ==
  /\ e.ev = "end"
  /\ LET m == e.m  D == Fold(<<>>, m.tcs, 1)  obs(fn) == {k \in DOMAIN m.funs : m.funs[k].fn[1] = fn} IN
     /\ Check(Len(m.funs) = Len(F) /\ Len(m.eps) = Cardinality({k \in DOMAIN F : F[k].model # -1}), <<"number of functions", Len(m.funs), Len(m.eps)>>)
     /\ \A k \in DOMAIN F :
          LET fn == fns[k]  f == F[k] IN
          /\ Check(Cardinality(obs(fn)) = 1, <<"function", k, "is not in the module exactly once">>)
          /\ LET o == m.funs[CHOOSE x \in obs(fn) : TRUE]  a == e.acc[k] IN
             /\ f.fin => Check(HeadOk(D, o, f, fn), <<"function", k, "declared as", o.fn, "wanted", f.ret, SigOf(f), f.ctrl>>)
             /\ Check(o.end[2] = 56 /\ o.end[3] = <<>>, <<"function end", o.end>>)
             /\ Check(ParamsOk(D, o, f), <<"parameters of", k, o.ps, "wanted", f.ps>>)
             /\ Check(BodyOk(D, o, f), <<"body of", k, o.bbs, "wanted", f.vars, f.blocks>>)
             /\ Check(EntryOk(o, f, fn, m.eps), <<"entry point of", k, o.ep, m.eps, "wanted", f.model, f.name>>)
             /\ Check(NamesOk(f, fn, m.names), <<"name of", k, f.name, m.names>>)
             /\ Check(AccOk(a, f), <<"accessors of", k, "report", a, "wanted", f>>)
     /\ Check(\A a, b \in DOMAIN m.tcs : a < b /\ D[m.tcs[a][1]] = D[m.tcs[b][1]] /\ m.tcs[a][2] = 33 => FALSE, "equal function types are declared more than once")
     /\ Check([k \in DOMAIN m.modes |-> <<m.modes[k][2], m.modes[k][3]>>] = [k \in DOMAIN modes |-> <<16, <<IRef(modes[k][1]), Lit16(modes[k][2])>> \o [x \in DOMAIN modes[k][3] |-> Lit16(modes[k][3][x])]>>], <<"execution modes", m.modes, modes>>)
  /\ UNCHANGED <<F, fns, modes>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Reset \/ Step \/ End)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
