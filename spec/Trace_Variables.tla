---------------------------- MODULE Trace_Variables ----------------------------
(* sessions of requests for variables; new: types and constants declared, added:  *)
(* nodes of the variables of every list that were not there, where: the lists      *)
EXTENDS Variables, TraceBase
VARIABLES l, D, vars, names, blocks
e == Trace[l]
TraceInit == l = 1 /\ D = <<>> /\ vars = <<>> /\ names = <<>> /\ blocks = <<>>
Begin == e.ev = "begin" /\ D' = Fold(<<>>, e.new, 1) /\ vars' = e.vars /\ names' = e.names /\ blocks' = e.blocks
Request ==
  /\ e.ev = "var"
  /\ LET r == e.want  d == Declares(D, r, e.new) IN
     /\ Check(e.err = 0, <<"an error was reported", e.last>>)
     /\ Check(e.kept, "earlier declarations were moved or removed")
     /\ Check(d.fresh /\ d.decoded /\ d.needed /\ d.once, <<"types and constants declared", e.new>>)
     /\ Check(e.vars = Place(vars, r, e.instr[1]), <<"variables", e.vars, "before", vars>>)
     /\ Check(VarOf(e.instr, d.E) = Wanted(r), <<"the variable is", VarOf(e.instr, d.E), "wanted", Wanted(r)>>)
     \* a function without blocks gets its entry block
     /\ Check(IF Opens(blocks, r) THEN Len(e.blocks[r.at]) = 1 /\ e.blocks = [blocks EXCEPT ![r.at] = e.blocks[r.at]] ELSE e.blocks = blocks, <<"blocks", e.blocks, "before", blocks>>)
     /\ Check(e.names = names \o (IF Opens(blocks, r) THEN <<<<e.blocks[r.at][1], EntryName>>>> ELSE <<>>) \o (IF r.name = NoName THEN <<>> ELSE <<<<e.instr[1], r.name>>>>), <<"names", e.names>>)
     \* what the variable says about itself
     /\ Check(e.name = r.name, <<"getName", e.name>>)
     /\ Check(e.storage = r.sc /\ e.info = PtrTo(r), <<"getStorageClass, getType", e.storage, e.info>>)
     /\ Check(e.parent = (IF r.at = 0 THEN "module" ELSE "block"), <<"parent", e.parent>>)
     /\ D' = d.E /\ vars' = e.vars /\ names' = e.names /\ blocks' = e.blocks
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Request)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, D, vars, names, blocks>>
================================================================================
