---------------------------- MODULE Trace_Types ------------------------------
(* sessions of requests against one module *)
EXTENDS Types, TraceBase
VARIABLES l, D
e == Trace[l]
TraceInit == l = 1 /\ D = <<>>
Reset == e.ev = "reset" /\ D' = <<>>
Request ==
  /\ e.ev = "req"
  /\ LET w == Want(e.want)  a == Answer(D, w, e.got, e.new) IN
     /\ Check(e.err = 0, <<"an error was reported", e.last>>)
     /\ Check(e.kept, "earlier declarations were moved or removed")
     \* the instruction of a type can be asked for without declaring it
     /\ IsType(w) => Check(e.found = (IF \E k \in DOMAIN D : D[k] = w THEN CHOOSE k \in DOMAIN D : D[k] = w ELSE 0) /\ e.after = e.got, <<"getTypeInstr", e.found, e.after>>)
     /\ Check(a.fresh, "an instruction was declared twice")
     /\ Check(a.decoded, <<"declaration is not a type or constant of earlier ones", e.new>>)
     /\ Check(a.right, <<"the instruction returned stands for", IF e.got \in DOMAIN a.E THEN a.E[e.got] ELSE Bad, "requested", w>>)
     /\ Check(a.needed, <<"something else was declared", e.new>>)
     /\ Check(a.once, <<"declared more than once", e.new, w>>)
     /\ Check(a.again, <<"requested before but declared again", w, e.new>>)
     /\ Check(a.newspec, <<"specialization constants were merged", w>>)
     /\ Check(Norm(e.info) = w, <<"the module reports", e.info, "for", w>>)
     /\ D' = a.E
\* everything declared so far, reported by the module itself
All ==
  /\ e.ev = "all"
  /\ Check({e.infos[k][1] : k \in DOMAIN e.infos} = DOMAIN D /\ Len(e.infos) = Cardinality(DOMAIN D), "declarations were lost")
  /\ \A k \in DOMAIN e.infos : Check(Norm(e.infos[k][2]) = D[e.infos[k][1]], <<"the module reports", e.infos[k], "for", D[e.infos[k][1]]>>)
  /\ UNCHANGED D
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Reset \/ Request \/ All)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, D>>
=============================================================================
