----------------------------- MODULE MC_Registry ------------------------------
(* Writes the words of an instruction operand by operand, as the registry       *)
(* allows: optional operands present or not, repeated ones up to Reps times,     *)
(* enumerants with and without parameters.  What was written where has to be     *)
(* found again from the words alone.                                             *)
EXTENDS Registry, TLC
CONSTANTS Reps, Emit, Low, High
VARIABLES op, d, reps, todo, words, at
vars == <<op, d, reps, todo, words, at>>
\* todo: kinds of parameters still to be written; at: where operands began
O == Op(op).o
Init == op \in {G.ops[i].op : i \in Low..High} /\ d = 1 /\ reps = 0 /\ todo = <<>> /\ words = <<>> /\ at = <<>>
\* a plain enumerant, those with parameters (shortest list first), and two together
Plain(k) == {i \in DOMAIN Vals(k) : Vals(k)[i].p = <<>>}
Rich(k) == {i \in DOMAIN Vals(k) : Vals(k)[i].p # <<>>}
MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j
MaxOf(S) == CHOOSE i \in S : \A j \in S : i >= j
Some(S) == IF S = {} THEN {} ELSE {MinOf(S), MaxOf(S)}
Chosen(k) ==
  LET one == {Vals(k)[i].v : i \in Some(Plain(k)) \cup Some(Rich(k))}  R == {i \in Rich(k) : Single(Vals(k)[i].v)} IN
  one \cup (IF CatOf(k) = 0 /\ Cardinality(R) > 1 THEN LET a == Vals(k)[MinOf(R)].v  b == Vals(k)[MaxOf(R)].v IN {<<a[1] + b[1], a[2] + b[2]>>} ELSE {})
Id == <<"i", 0, 0>>
Lit == <<"l", 4660, 22136>>
Long == <<"l", 26985, 26985>>
\* the words an operand of kind k may start with, and the kinds of the parameters behind
Ways(k) ==
  CASE k = LitString -> {<<<<<<"l", 105, 26985>>>>, <<>>>>, <<<<Long, <<"l", 0, 0>>>>, <<>>>>, <<<<Long, Long, <<"l", 0, 105>>>>, <<>>>>}
    [] CatOf(k) \in {0, 1} -> {<<<<<<"l", v[1], v[2]>>>>, Params(k, v)>> : v \in Chosen(k)}
    [] CatOf(k) = 2 -> {<<<<Id>>, <<>>>>}
    [] CatOf(k) = 3 -> {<<<<Lit>>, <<>>>>}
    [] CatOf(k) = 4 -> {<<[i \in DOMAIN G.kinds[k + 1].bases |-> IF CatOf(G.kinds[k + 1].bases[i]) = 2 THEN Id ELSE Lit], <<>>>>}
Write(k) == \E w \in Ways(k) : words' = words \o w[1] /\ todo' = w[2] \o (IF todo = <<>> THEN <<>> ELSE Tail(todo))
Operand == todo = <<>> /\ d <= Len(O) /\ (O[d][2] = 1 => reps < Reps) /\ Write(O[d][1]) /\ at' = Append(at, <<d, Len(words) + 1>>)
           /\ (IF O[d][2] = 1 THEN d' = d /\ reps' = reps + 1 ELSE d' = d + 1 /\ reps' = 0) /\ UNCHANGED op
Param == todo # <<>> /\ Write(todo[1]) /\ UNCHANGED <<op, d, reps, at>>
Next == Operand \/ Param
Spec == Init /\ [][Next]_vars
Complete == todo = <<>> /\ \A i \in d..Len(O) : O[i][2] # 2
\* nothing required behind something optional; the result before everything else; repeated operands last
WellFormed ==
  /\ \A i \in 1..Len(O), j \in 1..Len(O) : (i < j /\ O[i][2] # 2) => O[j][2] # 2
  /\ \A i \in 1..Len(O) : (O[i][2] = 1) => i = Len(O)
  /\ HasType(op) => O[1] = <<47, 2>>
  /\ HasResult(op) => O[ResAt(op)] = <<48, 2>>
  /\ Len(Op(op).on) = Len(O)
\* the words alone tell where the operands are
Decodes == Complete => Starts(O, 1, words, 1) = at
Out == (Emit /\ Complete /\ Len(words) > 0) => PrintT("S " \o ToJson([op |-> op, w |-> words]))
===============================================================================
