------------------------------- MODULE Names --------------------------------
(* Names of instructions and struct members.  N: the names given so far, in     *)
(* order, <<target, member, bytes>>, member -1: the target itself.  K: what each *)
(* target is: "s" struct type, "r" has a result, "x" has none.                   *)
EXTENDS Literals
Legal(K, s) == CASE s[1] = "name" -> K[s[2]] # "x" [] s[1] = "mem" -> K[s[2]] = "s" [] OTHER -> TRUE
Effect(N, K, s) ==
  CASE ~Legal(K, s) -> N
    [] s[1] = "name" -> Append(N, <<s[2], -1, s[3]>>)
    [] s[1] = "mem" -> Append(N, <<s[2], s[3], s[4]>>)
    [] s[1] = "drop" -> SelectSeq(N, LAMBDA n : n[1] # s[2])
    [] OTHER -> N
Of(N, t) == {i \in DOMAIN N : N[i][1] = t}
\* every answer a lookup may give: several names of one target are equally good
Gets(N, t, m) == LET S == {N[i][3] : i \in {j \in Of(N, t) : N[j][2] = m}} IN IF S = {} THEN {<<>>} ELSE {<<s>> : s \in S} \cup (IF <<>> \in S THEN {<<>>} ELSE {})
Finds(N, b) == LET S == {N[i][1] : i \in {j \in DOMAIN N : N[j][2] = -1 /\ N[j][3] = b}} IN IF S = {} THEN {0} ELSE S
Bag(f) == LET V == {f[i] : i \in DOMAIN f} IN {<<v, Cardinality({i \in DOMAIN f : f[i] = v})>> : v \in V}
List(N, t) == Bag([i \in Of(N, t) |-> <<N[i][2], N[i][3]>>])
Ok(N, s, r) ==
  CASE s[1] = "get" -> r \in Gets(N, s[2], s[3])
    [] s[1] = "list" -> Bag(r) = List(N, s[2])
    [] s[1] = "find" -> r \in Finds(N, s[2])
    [] OTHER -> TRUE
\* the instructions that carry them: <<opcode, target, literal words>>
IdxWord(m) == <<m \div 65536, m % 65536>>
Instr(n) == IF n[2] = -1 THEN <<5, n[1], StrWords(n[3])>> ELSE <<6, n[1], <<IdxWord(n[2])>> \o StrWords(n[3])>>
Emit(N) == [i \in DOMAIN N |-> Instr(N[i])]
\* and back
Back(I) == [i \in DOMAIN I |-> IF I[i][1] = 5 THEN <<I[i][2], -1, StrOf(I[i][3])>> ELSE <<I[i][2], I[i][3][1][1] * 65536 + I[i][3][1][2], StrOf(Tail(I[i][3]))>>]
=============================================================================
