--------------------------------- MODULE Walks ---------------------------------
(* Walking over the instructions of a module: in the order of the binary, each    *)
(* once, until the callback asks to stop (or a block has no end); and what every   *)
(* instruction says about itself.                                                *)
EXTENDS Modules
Ends == {249, 250, 251, 252, 253, 254, 255, 4416, 4448, 4449, 5294}
Ended(b) == b.ins # <<>> /\ b.ins[Len(b.ins)][2] \in Ends
\* functions in the order of the binary: declarations, definitions, entry points
FunOrder(m) ==
  LET own == SelectSeq(m.funs, LAMBDA f : f.ep = <<>>) IN
  SelectSeq(own, LAMBDA f : f.bbs = <<>>) \o SelectSeq(own, LAMBDA f : f.bbs # <<>>) \o SelectSeq(m.funs, LAMBDA f : f.ep # <<>> /\ f.bbs # <<>>)
Order(m) == Globals(m) \o Flat([k \in DOMAIN FunOrder(m) |-> FunInstrs(FunOrder(m)[k])])
\* the number of instructions in front of which a walk ends because a block has no end: all, if there is no such block
Reach(m) ==
  LET fs == FunOrder(m)
      bad == {k \in DOMAIN fs : \E b \in DOMAIN fs[k].bbs : ~Ended(fs[k].bbs[b])} IN
  IF bad = {} THEN Len(Order(m)) ELSE
  LET k == CHOOSE x \in bad : \A y \in bad : x <= y
      f == fs[k]
      open == {b \in DOMAIN f.bbs : ~Ended(f.bbs[b])}
      o == CHOOSE x \in open : \A y \in open : x <= y IN
  Len(Globals(m)) + Len(Flat([x \in 1..(k - 1) |-> FunInstrs(fs[x])])) + 1 + Len(f.ps) + Len(Flat([b \in 1..o |-> <<f.bbs[b].lab>> \o f.bbs[b].ins]))
Broken(m) == Reach(m) < Len(Order(m))
Nodes(is) == [k \in DOMAIN is |-> is[k][1]]
\* what a walk sees whose callback stops at the first instruction whose number (of calls) or opcode is asked for
Stops(is, at, op) == {k \in DOMAIN is : k = at \/ is[k][2] = op}
First(S) == CHOOSE x \in S : \A y \in S : x <= y
Walk(m, at, op) ==
  LET is == SubSeq(Order(m), 1, Reach(m))  S == Stops(is, at, op) IN
  IF S # {} THEN [seen |-> Nodes(SubSeq(is, 1, First(S))), ret |-> TRUE, err |-> 0]
  ELSE [seen |-> Nodes(is), ret |-> Broken(m), err |-> IF Broken(m) THEN 1 ELSE 0]
\* the instruction an id belongs to
ById(m, id) == LET is == SubSeq(Order(m), 1, Reach(m))  S == {k \in DOMAIN is : ResId(is[k]) = id} IN IF S = {} THEN 0 ELSE is[First(S)][1]

------------------------------------------------------------------ \* about itself
ClassOf(i) == CASE i[2] = 32 /\ Len(i[3]) > 1 -> i[3][2][3] [] i[2] = OpVariable /\ Len(i[3]) > 2 -> i[3][3][3] [] OTHER -> -1
\* id, node of the result type, operands that are not result and type, words, opcode, storage class
Facts(i) ==
  << IF ResAt(i[2]) = 0 THEN 0 ELSE i[3][ResAt(i[2])][2],
     IF HasType(i[2]) /\ i[3][1][1] = "i" THEN i[3][1][2] ELSE 0,
     Len(i[3]) + 1 - FirstArg(i[2]),
     Len(i[3]) + 1, i[2], ClassOf(i) >>
================================================================================
