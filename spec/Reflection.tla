------------------------------ MODULE Reflection ------------------------------
(* What reflection queries may answer about a module (see Modules.tla for its   *)
(* form): decorations and names of targets, targets of decorations, literals of  *)
(* decorations, workgroup size and variables by storage class.                   *)
EXTENDS Modules
None == <<65535, 65535>>
\* OpDecorate, OpMemberDecorate; with ids or strings (the answers for these are not specified, except that they are not for others)
Plain2 == {71, 72}  Other == {332, 5632, 5633}  Groups == {74, 75}
First(i) == IF i[3] # <<>> /\ i[3][1][1] \in {"i", "b"} THEN i[3][1][2] ELSE 0
Lits(i) == LET p == IF i[2] \in {72, 5633} THEN 3 ELSE 2 IN [k \in 1..(IF Len(i[3]) < p THEN 0 ELSE Len(i[3]) - p + 1) |-> IF i[3][k + p - 1][1] = "l" THEN <<i[3][k + p - 1][2], i[3][k + p - 1][3]>> ELSE <<"id">>]
HasKind(i) == i[2] \in Plain2 \cup Other /\ Lits(i) # <<>>
KindOf(i) == Lits(i)[1]
HasLit(i) == HasKind(i) /\ Len(Lits(i)) > 1 /\ Lits(i)[2] # <<"id">>
LitOf(i) == Lits(i)[2]
Nodes(s) == [k \in DOMAIN s |-> s[k][1]]
Of(s, t, ops) == SelectSeq(s, LAMBDA i : i[2] \in ops /\ First(i) = t)

\* decorations of a target, in order: for certain, and at most
DecsOf(m, t) == Of(m.decs, t, Plain2 \cup Other)
DecsMay(m, t) == Of(m.decs, t, Plain2 \cup Other \cup Groups)
NamesOf(m, t) == Of(m.names, t, {5, 6})
\* decorations of a kind, with a value (<<>>: whatever)
Carry(m, kind, val, ops) == SelectSeq(m.decs, LAMBDA i : i[2] \in ops /\ HasKind(i) /\ KindOf(i) = kind /\ (val = <<>> \/ (HasLit(i) /\ LitOf(i) = val)))
Targets(s) == {First(s[k]) : k \in DOMAIN s}
LitsFor(m, kind, t, ops) == SelectSeq(Of(m.decs, t, ops), LAMBDA i : HasLit(i) /\ KindOf(i) = kind)

\* workgroup sizes: one per mode that declares one
ValueOf(m, n) == LET s == SelectSeq(m.tcs, LAMBDA i : i[1] = n /\ i[2] \in {43, 50}) IN
  IF s = <<>> THEN <<0, 0>> ELSE LET i == s[1] IN IF Len(i[3]) < 3 THEN <<0, 0>> ELSE <<i[3][3][2], i[3][3][3]>>
SizeModes(m) == SelectSeq(m.modes, LAMBDA i : Len(i[3]) >= 5 /\ ((i[2] = 16 /\ i[3][2] \in {<<"l", 0, 17>>, <<"l", 0, 18>>}) \/ (i[2] = 331 /\ i[3][2] \in {<<"l", 0, 38>>, <<"l", 0, 39>>})))
SizeOf(m, i) == [k \in 1..3 |-> LET o == i[3][k + 2] IN IF i[2] = 16 THEN <<o[2], o[3]>> ELSE ValueOf(m, o[2])]
Sizes(m) == {SizeOf(m, SizeModes(m)[k]) : k \in DOMAIN SizeModes(m)}
VarsOf(m, sc) == SelectSeq(m.vars, LAMBDA i : i[3][3] = <<"l", 0, sc>>)
ToS(s) == {s[k] : k \in DOMAIN s}

Answer(m, q) ==
  CASE q[1] = "decs" -> LET got == q[3]  sure == Nodes(DecsOf(m, q[2]))  may == Nodes(DecsMay(m, q[2])) IN got = sure \/ got = may
    [] q[1] = "names" -> q[3] = Nodes(NamesOf(m, q[2]))
    [] q[1] = "with" -> LET sure == Carry(m, q[2], q[3], Plain2)  may == Carry(m, q[2], q[3], Plain2 \cup Other) IN
         Targets(sure) \subseteq ToS(q[4]) /\ ToS(q[4]) \subseteq Targets(may) /\ \A t \in ToS(q[4]) : Cardinality({k \in DOMAIN q[4] : q[4][k] = t}) <= Cardinality({k \in DOMAIN may : First(may[k]) = t})
    [] q[1] = "kind" -> LET i == q[2] IN (HasKind(i) /\ q[3] = KindOf(i)) \/ (~(HasKind(i) /\ i[2] \in Plain2) /\ q[3] = <<32767, 65535>>)
    [] q[1] = "lit" -> LET i == q[2] IN
         IF HasKind(i) /\ i[2] \in Plain2 THEN q[3] /\ q[4] = KindOf(i) /\ (IF HasLit(i) THEN q[5] = LitOf(i) ELSE q[5] = <<4951, 9029>>)
         ELSE ~q[3] \/ (HasKind(i) /\ q[4] = KindOf(i))
    [] q[1] = "getlit" -> LET i == q[3]  fit == HasLit(i) /\ KindOf(i) = q[2] IN
         IF fit /\ i[2] = 71 THEN q[4] = LitOf(i) ELSE q[4] = None \/ (fit /\ q[4] = LitOf(i))
    [] q[1] = "of" -> LET sure == LitsFor(m, q[2], q[3], Plain2)  may == LitsFor(m, q[2], q[3], Plain2 \cup Other) IN
         (sure = <<>> /\ q[4] = None /\ q[5] = 0) \/ \E k \in DOMAIN may : q[4] = LitOf(may[k]) /\ q[5] = may[k][1]
    [] q[1] = "size" -> IF Sizes(m) = {} THEN ~q[2] ELSE q[2] /\ q[3] \in Sizes(m)
    [] q[1] = "vars" -> q[3] = Nodes(VarsOf(m, q[2]))
    [] OTHER -> FALSE
===============================================================================
