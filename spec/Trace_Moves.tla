------------------------------- MODULE Trace_Moves ------------------------------
(* After every step each place is looked at.  A module that holds history h has   *)
(* to be the same as a module in which h took place without any move: dig stands   *)
(* for everything the module shows (instructions, lookups, settings, written words),*)
(* want for the same of the module built by the driver for the history h.          *)
EXTENDS Moves, TraceBase
VARIABLES l, p
tvars == <<l, p>>
e == Trace[l]
Begin == e.ev = "begin" /\ p' = [s \in 1..e.n |-> Free]
Step ==
  e.ev = "step" /\
  LET o == e.op  s == e.s IN
  p' = CASE o = "new" -> PNew(p, s, e.d) [] o = "ext" -> PExtend(p, s, e.d) [] o \in {"mvn", "mva"} -> PMove(p, s, e.d) [] o = "reset" -> PReset(p, s) [] o = "del" -> PDelete(p, s)
\* owner: things found in the module that say they belong to another one; foreign: allocated elsewhere
See ==
  e.ev = "see" /\ UNCHANGED p /\
  LET q == p[e.s] IN
  /\ Check(q.k # "free", <<"driver: looked at a free place">>)
  /\ Check(e.stale = 0, <<"still answers for", e.stale, "instructions that are not there any more">>)
  /\ IF q.k = "gone" THEN Check(e.things = 0, <<"moved-from module holds", e.things, "instructions or entries">>)
     ELSE /\ Check(e.h = q.h, <<"driver: history", e.h, q.h>>)
          /\ Check(e.dig = e.want, <<"module with history", q.h, "is not what the history makes:", e.diff>>)
          /\ Check(e.owner = <<>>, <<"belongs to another module:", e.owner>>)
          /\ Check(e.alloc = q.a, <<"allocator", e.alloc, "wanted", q.a>>)
          /\ (q.h = <<>> => Check(e.things = 0, <<"module without history holds", e.things>>))
\* every place was destroyed: nothing may be left
End ==
  e.ev = "end" /\ UNCHANGED p
  /\ Check(e.left = 0, <<"blocks never returned", e.left>>)
  /\ Check(e.bad = 0, <<"blocks returned wrongly", e.bad>>)
TraceInit == l = 1 /\ p = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Step \/ See \/ End)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=================================================================================
