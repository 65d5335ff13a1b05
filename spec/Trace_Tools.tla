----------------------------- MODULE Trace_Tools ------------------------------
(* recorded runs of the tools *)
EXTENDS Tools, TraceBase
VARIABLE l
e == Trace[l]
TraceInit == l = 1
Ended == Check(e.exit < 1000, <<"the tool crashed or hung", e.args, e.exit>>)
Good == e.kind = "good"
Dis ==
  /\ e.ev = "dis" /\ Ended
  /\ LET p == DisPlan(e.args) IN
     /\ Check(e.plan = p, <<"plan", e.args, e.plan, p>>)
     /\ Check((e.exit = 0) = Good, <<"exit status", e.args, e.exit>>)
     /\ Good => Check(e.out = e.text, <<"listing of", e.args, e.diff>>)
     /\ ~Good => Check(e.out = "0", <<"something was listed", e.args>>)
     /\ Check(e.changed = (IF Good /\ p.serialize THEN <<<<"serialized.spv", e.binary>>>> ELSE <<>>), <<"files written", e.args, e.changed, "expected", e.binary>>)
Refl ==
  /\ e.ev = "refl" /\ Ended
  /\ LET p == ReflPlan(e.args) IN
     /\ Check(e.plan = p, <<"plan", e.args, e.plan, p>>)
     /\ Check(e.changed = <<>>, <<"files written", e.args, e.changed>>)
     /\ IF Good /\ Succeeds(e, p)
        THEN /\ Check(e.exit = 0, <<"exit status", e.args, e.exit>>)
             /\ LET x == Told(ReflLines(e, p, Plain)) IN
                Check(e.out = x \/ e.out = Told(ReflLines(e, p, Plain \cup Other)), <<"printed", e.args, e.out, "expected", x>>)
        ELSE Check(e.exit # 0, <<"exit status", e.args, e.exit>>)
Link ==
  /\ e.ev = "link" /\ Ended
  /\ LET p == LinkPlan(e.args)  j == Job(p) IN
     /\ Check(e.plan = [p EXCEPT !.flags = e.plan.flags] /\ {e.plan.flags[k] : k \in DOMAIN e.plan.flags} = p.flags, <<"plan", e.args, e.plan, p>>)
     /\ j # "free"
     /\ LET ok == j \in {"patch", "link"} /\ e.ok IN
        /\ Check((e.exit = 0) = (ok \/ j = "nothing"), <<"exit status", j, e.args, e.exit, e.ok>>)
        /\ Check(e.changed = (IF ok /\ e.binary # e.was THEN <<<<Target(p), e.binary>>>> ELSE <<>>), <<"files written", j, e.args, e.changed, "expected", Target(p), e.binary>>)
        /\ ok => Check(e.readable, <<"what was written can not be read", e.args>>)
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Dis \/ Refl \/ Link)
TraceSpec == TraceInit /\ [][TraceNext]_l
===============================================================================
