---------------------------- MODULE MC_Reflection -----------------------------
(* Modules made of a few decorations, names and execution modes in any order.   *)
(* Items: <<"dec", target, kind, literals>>, <<"mdec", target, member, kind,     *)
(* literals>>, <<"id", target, kind, constant>>, <<"str", target, kind, word>>,  *)
(* <<"mstr", target, member, kind, word>>, <<"gdec", target>>, <<"gmdec", target, *)
(* member>>, <<"name", target>>, <<"mname", target, member>>, <<"mode", entry,    *)
(* mode, x, y, z>>, <<"modeid", entry, mode, x, y, z>> (constants by number).     *)
EXTENDS Reflection, Json
CONSTANTS Depth, Emit
VARIABLES h
Vars == {1, 2}  Structs == {3, 4}  Group == 5  Entries == {6, 7}
Items ==
  {<<"dec", t, k, <<>>>> : t \in {1, 3, 5}, k \in {0, 2, 14}} \cup {<<"dec", t, k, <<v>>>> : t \in {1, 2, 5}, k \in {1, 33}, v \in {0, 7}} \cup {<<"dec", 2, 41, <<98, 0>>>>}
  \cup {<<"mdec", t, x, k, v>> : t \in {3, 4}, x \in {0, 1, 33}, k \in {1, 35}, v \in {<<>>, <<7>>}}
  \cup {<<"id", 1, 27, 1>>, <<"id", 1, 1, 1>>, <<"str", 1, 5635, 98>>, <<"mstr", 3, 1, 5635, 98>>, <<"mstr", 3, 33, 5635, 98>>, <<"gdec", 1>>, <<"gmdec", 3, 0>>, <<"gmdec", 3, 33>>}
  \cup {<<"name", t>> : t \in {1, 3}} \cup {<<"mname", 3, x>> : x \in {0, 1}}
  \cup {<<"mode", e, k, 1, 2, 3>> : e \in Entries, k \in {17, 18}} \cup {<<"mode", 6, 26, 3, 0, 0>>, <<"mode", 6, 7, 0, 0, 0>>}
  \cup {<<"modeid", e, k, 1, 2, c>> : e \in {6}, k \in {38, 39}, c \in {1, 2, 3, 4, 5}} \cup {<<"modeid", 7, 38, 2, 2, 1>>}
Lit(v) == <<"l", 0, v>>
Instr(i, n) ==
  CASE i[1] = "dec" -> <<n, 71, <<<<"i", i[2]>>, Lit(i[3])>> \o [k \in DOMAIN i[4] |-> Lit(i[4][k])]>>
    [] i[1] = "mdec" -> <<n, 72, <<<<"i", i[2]>>, Lit(i[3]), Lit(i[4])>> \o [k \in DOMAIN i[5] |-> Lit(i[5][k])]>>
    [] i[1] = "id" -> <<n, 332, <<<<"i", i[2]>>, Lit(i[3]), <<"i", 90 + i[4]>>>>>>
    [] i[1] = "str" -> <<n, 5632, <<<<"i", i[2]>>, Lit(i[3]), Lit(i[4])>>>>
    [] i[1] = "mstr" -> <<n, 5633, <<<<"i", i[2]>>, Lit(i[3]), Lit(i[4]), Lit(i[5])>>>>
    [] i[1] = "gdec" -> <<n, 74, <<<<"i", 5>>, <<"i", i[2]>>>>>>
    [] i[1] = "gmdec" -> <<n, 75, <<<<"i", 5>>, <<"i", i[2]>>, Lit(i[3])>>>>
    [] i[1] = "name" -> <<n, 5, <<<<"i", i[2]>>, Lit(97)>>>>
    [] i[1] = "mname" -> <<n, 6, <<<<"i", i[2]>>, Lit(i[3]), Lit(97)>>>>
    [] i[1] = "mode" -> <<n, 16, <<<<"i", i[2]>>, Lit(i[3])>> \o (IF i[3] = 26 THEN <<Lit(i[4])>> ELSE IF i[3] = 7 THEN <<>> ELSE <<Lit(i[4]), Lit(i[5]), Lit(i[6])>>)>>
    [] i[1] = "modeid" -> <<n, 331, <<<<"i", i[2]>>, Lit(i[3])>> \o [k \in 1..3 |-> <<"i", 90 + i[k + 3]>>]>>
Sec(s, K) == LET a == [k \in DOMAIN s |-> Instr(s[k], 100 + k)] IN SelectSeq(a, LAMBDA i : i[2] \in K)
Consts == [k \in 1..5 |-> <<90 + k, IF k = 2 THEN 50 ELSE IF k = 3 THEN 46 ELSE IF k = 4 THEN 52 ELSE 43, IF k = 3 THEN <<<<"i", 89>>, <<"d", k>>>> ELSE <<<<"i", 89>>, <<"d", k>>, Lit(k + 10)>>>>]
Mod(s) == [decs |-> Sec(s, {71, 72, 332, 5632, 5633, 74, 75}), names |-> Sec(s, {5, 6}), modes |-> Sec(s, {16, 331}), tcs |-> Consts, vars |-> <<<<1, 59, <<<<"i", 88>>, <<"d", 1>>, Lit(6)>>>>, <<2, 59, <<<<"i", 87>>, <<"d", 2>>, Lit(2)>>>>>>]
T == 1..7
Kinds == {0, 1, 2, 14, 27, 33, 35, 41, 5635}
Init == h = <<>>
Add == Len(h) < Depth /\ \E i \in Items : h' = Append(h, i)
Next == Add
Spec == Init /\ [][Next]_h
m == Mod(h)
\* the queries agree with each other
Agree == \A k \in Kinds : LET s == Carry(m, <<0, k>>, <<>>, Plain2) IN
  /\ Targets(s) = {t \in T : \E x \in ToS(DecsOf(m, t)) : x[2] \in Plain2 /\ KindOf(x) = <<0, k>>}
  /\ \A t \in T : (LitsFor(m, <<0, k>>, t, Plain2) # <<>>) = (\E v \in {<<0, 0>>, <<0, 7>>, <<0, 98>>} : t \in Targets(Carry(m, <<0, k>>, v, Plain2)))
\* every decoration and name belongs to one target
Once == \A i \in ToS(m.decs) : Cardinality({t \in T : i \in ToS(DecsMay(m, t))}) = 1
\* an item concerns its own target only
About(i) == IF i[1] \in {"gdec", "gmdec"} THEN 5 ELSE i[2]
Own(mm, t) == <<[k \in DOMAIN DecsMay(mm, t) |-> Tail(DecsMay(mm, t)[k])], [k \in DOMAIN NamesOf(mm, t) |-> Tail(NamesOf(mm, t)[k])]>>
Isolated == [][\A t \in T : t # About(h'[Len(h')]) => Own(Mod(h'), t) = Own(Mod(h), t)]_h
Sized == (Sizes(m) # {}) = (\E k \in DOMAIN h : h[k][1] = "modeid" \/ (h[k][1] = "mode" /\ h[k][3] \in {17, 18}))
Out == (Emit /\ Len(h) > 0) => PrintT("S " \o ToJson(h))
===============================================================================
