-------------------------------- MODULE Linking --------------------------------
(* Linking a library module L into a consumer B, giving A.  Nodes of L and A    *)
(* are positions in module order (see Modules.tla).  Imports and exports are    *)
(* LinkageAttributes decorations; an import is bound when the library exports    *)
(* its name and both symbols are of the same kind and type, and then stands for  *)
(* the library's definition: pairing the symbols and whatever their definitions *)
(* refer to gives the correspondence between library and result.                *)
EXTENDS Modules, Literals
TY == INSTANCE Types
Export == 0  Import == 1
IsType(op) == op \in TY!TypeOps
IsConst(op) == op \in 41..46
IsSpec(op) == op \in 48..52
Shared(op) == IsType(op) \/ IsConst(op) \/ op = 11
LitsFrom(i, k) == LET s == SubSeq(i[3], k, Len(i[3])) IN [x \in DOMAIN s |-> <<s[x][2], s[x][3]>>]
\* linkage decorations
IsLinkage(i) == i[2] = 71 /\ Len(i[3]) >= 4 /\ i[3][2] = <<"l", 0, 41>>
LinkKind(i) == i[3][Len(i[3])][3]
LinkName(i) == StrOf(LitsFrom(i, 3))
LinkTarget(i) == i[3][1][2]
Links(m, kind) == SelectSeq(m.decs, LAMBDA i : IsLinkage(i) /\ LinkKind(i) = kind)
Values(m) == TY!Fold(<<>>, m.tcs, 1)
ModuleVars(m) == {m.vars[k][1] : k \in DOMAIN m.vars}
FunNodes(f) == LET s == FunInstrs(f) IN [k \in DOMAIN s |-> s[k][1]]
\* function -> the nodes of its instructions
Bodies(m) == [fn \in {m.funs[k].fn[1] : k \in DOMAIN m.funs} |-> FunNodes(m.funs[CHOOSE k \in DOMAIN m.funs : m.funs[k].fn[1] = fn])]
IsRefOp(o) == o[1] \in {"i", "b"}
RefsOf(i) == {i[3][k][2] : k \in {x \in DOMAIN i[3] : IsRefOp(i[3][x])}}
\* the value that decides whether symbols match: kind and type
SymType(I, D, s) == LET i == I[s] IN
  IF i[2] = OpFunction /\ Len(i[3]) = 4 /\ i[3][4][2] \in DOMAIN D THEN <<"f", D[i[3][4][2]]>>
  ELSE IF i[2] = OpVariable /\ i[3][1][2] \in DOMAIN D THEN <<"v", D[i[3][1][2]]>> ELSE <<"none">>

------------------------------------------------------------------ \* what a definition needs
RECURSIVE Visit(_, _, _, _, _)
\* everything reachable from the frontier F; functions bring their bodies; Stop: bound on their own
Visit(I, Bod, Stop, F, S) ==
  IF F = {} THEN S ELSE
  LET inner == UNION {IF n \in DOMAIN Bod THEN ToSet(Bod[n]) ELSE {} : n \in F}
      N == (UNION {RefsOf(I[n]) : n \in F} \cup inner) \ (S \cup F \cup Stop) IN
  Visit(I, Bod, Stop, N, S \cup F)
Reached(I, Bod, Stop, s) == Visit(I, Bod, Stop \ {s}, {s}, {})

------------------------------------------------------------------ \* correspondence
Pairs(s, t) == {<<s[k], t[k]>> : k \in DOMAIN s \cap DOMAIN t}
\* pairs that follow from one pair
Next1(LI, AI, LB, AB, p) ==
  LET x == LI[p[1]]  y == AI[p[2]]
      K == {k \in DOMAIN x[3] \cap DOMAIN y[3] : IsRefOp(x[3][k]) /\ IsRefOp(y[3][k])} IN
  IF x[2] = 28 THEN {<<x[3][k][2], y[3][k][2]>> : k \in K \cap {2}}
  ELSE {<<x[3][k][2], y[3][k][2]>> : k \in K} \cup (IF p[1] \in DOMAIN LB /\ p[2] \in DOMAIN AB THEN Pairs(LB[p[1]], AB[p[2]]) ELSE {})
RECURSIVE Close(_, _, _, _, _, _)
Close(LI, AI, LB, AB, F, S) ==
  IF F = {} THEN S ELSE Close(LI, AI, LB, AB, UNION {Next1(LI, AI, LB, AB, p) : p \in F} \ (S \cup F), S \cup F)
\* do two instructions say the same (their references are compared by their own pairs)
SameOp(o, p) == CASE o[1] = "l" -> o = p [] o[1] = "d" -> p[1] = "d" [] IsRefOp(o) -> IsRefOp(p) [] OTHER -> FALSE
SameInstr(x, y, LD, AD, bound) ==
  IF x[2] # y[2] THEN FALSE
  ELSE IF IsType(x[2]) /\ x[1] \in DOMAIN LD /\ LD[x[1]] # TY!Bad THEN y[1] \in DOMAIN AD /\ LD[x[1]] = AD[y[1]]
  ELSE IF bound /\ x[2] = OpFunction THEN TRUE
  ELSE Len(x[3]) = Len(y[3]) /\ \A k \in DOMAIN x[3] : SameOp(x[3][k], y[3][k])
===============================================================================
