----------------------------- MODULE Trace_Editing -----------------------------
(* After every edit the whole module is listed; every edit is replayed on the   *)
(* listing before it.  types, consts: what requests for the descriptions of the *)
(* beginning have to return.  names: entries of the name lookup.                *)
EXTENDS Editing, TraceBase
VARIABLES l, m, types, names
tvars == <<l, m, types, names>>
e == Trace[l]
SetOf(s) == {s[k] : k \in DOMAIN s}
SecDiff(a, b) == {<<s, Diff(a[s], b[s])>> : s \in {x \in DOMAIN a : a[x] # b[x] /\ x \notin {"mm", "bound"}}}
\* ids are only assigned later
Now(want) == Check([want EXCEPT !.bound = e.m.bound] = e.m, <<e.op, "module differs", SecDiff(want, e.m)>>) /\ m' = e.m
UsesAre(S) == Check(SetOf(e.uses) = S, <<e.op, "uses", e.uses, "wanted", S>>)
Same == Now(m)
\* lookups: nothing about what is gone, everything about the rest
Lookups(gone) ==
  LET live == Nodes(e.m)  now == SetOf(e.names)
      touched == {i[3][1][2] : i \in {x \in SetOf(m.names) : x[1] \notin live /\ x[3] # <<>> /\ x[3][1][1] = "i"}} IN
  /\ Check(\A x \in now : x[1] \in live, <<"name lookup keeps", {x \in now : x[1] \notin live}>>)
  /\ Check(now \subseteq SetOf(names), <<"name lookup gained", now \ SetOf(names)>>)
  /\ Check(\A x \in SetOf(names) : x \in now \/ x[1] \notin live \/ x[1] \in gone \cup touched, <<"name lookup lost", SetOf(names) \ now>>)
  /\ names' = e.names
  /\ types' = SelectSeq(types, LAMBDA x : x[1] \in live)
Begin == e.ev = "begin" /\ m' = e.m /\ types' = e.types /\ names' = e.names /\ Check(Closed(e.m), <<"driver: dangling">>)
Edit ==
  e.ev = "edit" /\
  CASE e.op = "gather" -> UsesAre(Users(m, {<<"i", e.x>>})) /\ (IF e.y = 0 THEN Same ELSE Now(Replace(m, e.x, e.y))) /\ Lookups({})
    [] e.op = "replace" -> Now(Replace(m, e.x, e.y)) /\ Lookups({})
    [] e.op = "instr" -> LET can == e.x \in Removable(m) IN Check(e.ret = can, <<"remove returned", e.ret, e.x>>) /\ Now(IF can THEN Without(m, {e.x}) ELSE m) /\ Lookups({e.x})
    \* something that does not belong there
    [] e.op = "foreign" -> Check(e.ret = FALSE /\ e.uses = <<>>, <<"foreign", e.ret, e.uses>>) /\ Same /\ Lookups({})
    [] e.op = "forget" -> Same /\ types' = SelectSeq(types, LAMBDA x : x[1] # e.x) /\ names' = e.names /\ Check(SetOf(e.names) = {x \in SetOf(names) : x[1] # e.x}, <<"removeFromLookupMaps", e.x>>)
    [] e.op = "block" -> UsesAre(Users(m, {<<"b", e.x>>, <<"i", e.x>>}) \cap Nodes(e.m)) /\ Now(RemoveBlock(m, e.x, e.y)) /\ Lookups({e.x})
    [] e.op = "function" -> UsesAre(Users(m, {<<"i", e.x>>}) \cap Nodes(e.m)) /\ Now(RemoveFun(m, e.x, e.y)) /\ Lookups({e.x})
\* requests for the descriptions known from the beginning
Probe ==
  e.ev = "probe" /\
  LET old == Nodes(m)  pre == SubSeq(e.m.tcs, 1, Len(m.tcs))  new == Nodes(e.m) \ old IN
  /\ SameSeq(m.tcs, pre, "types and constants changed")
  /\ \A k \in DOMAIN e.asked :
       LET d == e.asked[k][2]  r == e.asked[k][1]  S == {types[x][1] : x \in {y \in DOMAIN types : types[y][2] = d}} IN
       Check(IF S # {} THEN r \in S ELSE r \in new \/ (r \in Nodes(e.m) /\ \E x \in DOMAIN e.after : e.after[x] = <<r, d>>), <<"request", d, "returned", r, "wanted", S, "dead", r \notin Nodes(e.m)>>)
  /\ \A k \in DOMAIN e.after : LET x == e.after[k] IN Check(x[1] \in new \/ \E y \in DOMAIN types : types[y] = x, <<"description", x>>)
  /\ m' = e.m /\ types' = e.after /\ names' = e.names
TraceInit == l = 1 /\ m = <<>> /\ types = <<>> /\ names = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Edit \/ Probe)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
================================================================================
