----------------------------- MODULE MC_Modules ------------------------------
(* Programs as sequences of construction steps (which the driver executes), and *)
(* the binary of small modules: what WriteOk accepts is the encoding of the     *)
(* module and no disturbed version of it.                                       *)
EXTENDS Modules
CONSTANTS Depth
VARIABLES hist, inFun
vars == <<hist, inFun>>
Global == {"type", "const", "spec", "global", "name", "memberName", "decorate", "memberDecorate", "source", "extension", "capability", "import", "undef", "line", "mode"}
Outside == {"function", "entry", "declare"}
Body == {"arith", "load", "store", "local", "access", "composite", "if", "ifElse", "loop", "call", "ext", "switch", "phi", "image", "atomic", "nop", "branch", "logic", "convert"}
End == {"return"}
Init == hist = <<>> /\ inFun = FALSE
Step(s, f) == hist' = Append(hist, s) /\ inFun' = f
AddGlobal == Len(hist) < Depth /\ \E s \in Global : Step(s, inFun)
OpenFunction == Len(hist) < Depth /\ ~inFun /\ \E s \in Outside : Step(s, s # "declare")
AddCode == Len(hist) < Depth /\ inFun /\ \E s \in Body : Step(s, TRUE)
CloseFunction == Len(hist) < Depth /\ inFun /\ \E s \in End : Step(s, FALSE)
Next == AddGlobal \/ OpenFunction \/ AddCode \/ CloseFunction
Spec == Init /\ [][Next]_vars
Out == Len(hist) = Depth => PrintT("S " \o ToJson(hist))
------------------------------------------------------------------------------
\* the module with one instruction per kind of step in hist: section by section
Sec(names) == SelectSeq(hist, LAMBDA s : s \in names)
\* numbering is by module order; ids are 1.. in that order
Mk(n, op, args) == <<n, op, args>>
Tiny ==
  LET caps == [k \in 1..1 |-> Mk(k, 17, <<<<"l", 0, 1>>>>)]
      b1 == 1
      mm == Mk(b1 + 1, 14, <<<<"l", 0, 0>>, <<"l", 0, 1>>>>)
      tcs0 == Sec({"type", "const"})
      b2 == b1 + 1
      names == Sec({"name", "decorate"})
      b3 == b2 + Len(names)
      b4 == b3 + Len(tcs0) + 1
      nf == Len(Sec({"function", "entry"}))
      tcs == <<Mk(b3 + 1, 19, <<<<"d", 1>>>>)>> \o [k \in DOMAIN tcs0 |-> IF tcs0[k] = "type" THEN Mk(b3 + 1 + k, 20, <<<<"d", 1 + k>>>>) ELSE Mk(b3 + 1 + k, 1, <<<<"i", b3 + 1>>, <<"d", 1 + k>>>>)]
      funs == [k \in 1..nf |-> LET x == b4 + 4 * (k - 1)  id == Len(tcs) + 2 * (k - 1) IN
                [fn |-> Mk(x + 1, 54, <<<<"i", b3 + 1>>, <<"d", id + 1>>, <<"l", 0, 0>>, <<"i", b3 + 1>>>>), ps |-> <<>>,
                 bbs |-> <<[lab |-> Mk(x + 2, 248, <<<<"d", id + 2>>>>), ins |-> <<Mk(x + 3, 249, <<<<"b", x + 2>>>>)>>]>>, end |-> Mk(x + 4, 56, <<>>), ep |-> <<>>]] IN
  [ver |-> <<1, 0>>, gen |-> <<0, 0>>, bound |-> <<0, Len(tcs) + 2 * nf + 1>>, schema |-> <<0, 0>>, caps |-> caps, exts |-> <<>>, imps |-> <<>>, mm |-> mm, eps |-> <<>>, modes |-> <<>>, srcs |-> <<>>,
   names |-> [k \in DOMAIN names |-> Mk(b2 + k, 5, <<<<"i", b3 + 1>>, <<"l", 0, k>>>>)], procs |-> <<>>, decs |-> <<>>, tcs |-> tcs, vars |-> <<>>, undefs |-> <<>>, lines |-> <<>>, funs |-> funs]
Words(m) == <<Magic, m.ver, m.gen, m.bound, m.schema>> \o Flat(EncodeAll(All(m), Ids(m)))
Right == LET m == Tiny IN
  /\ \A k \in DOMAIN All(m) : All(m)[k][1] = k
  /\ IdsOk(Ids(m), m.bound[2])
  /\ WriteOk(m, Words(m))
\* every single disturbed word (except the generator) and every dropped word is refused
Sharp == LET m == Tiny  w == Words(m) IN
  \A k \in DOMAIN w \ {3} : ~WriteOk(m, [w EXCEPT ![k] = <<@[1], @[2] + 1>>]) /\ ~WriteOk(m, SubSeq(w, 1, k - 1) \o SubSeq(w, k + 1, Len(w)))
=============================================================================
