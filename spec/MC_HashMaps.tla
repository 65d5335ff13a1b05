----------------------------- MODULE MC_HashMaps -----------------------------
(* Exhaustive exploration; every transition becomes a script for the real map *)
EXTENDS HashMaps, TLC, Json
CONSTANTS MaxLen, NKeys, MaxVal, Collide
VARIABLE hist
vars == <<maps, cls, hist>>
Keys == 0..(NKeys - 1)
Vals == 1..MaxVal
Fresh == CHOOSE n \in 1..(2 * MaxLen + 2) : n \notin Nodes(maps["a"]) \cup Nodes(maps["b"])
Do(o, m, k, v) == hist' = Append(hist, <<o, m, k, v>>)
Room(m) == Len(maps[m]) < MaxLen
MCInit == Init0([i \in 1..NKeys |-> IF Collide THEN (i - 1) \div 2 ELSE i]) /\ hist = <<>>
A_Insert == \E m \in Names, k \in Keys, v \in Vals : Room(m) /\ Insert(m, k, v, Fresh) /\ Do("em", m, k, v)
A_Unique == \E m \in Names, k \in Keys, v \in Vals : Room(m) /\ \E n \in {Fresh} \cup Nodes(maps[m]) : InsertUnique(m, k, v, n) /\ Do("eu", m, k, v)
A_EraseFirst == \E m \in Names, k \in Keys : EraseFirst(m, k) /\ Do("er", m, k, 0)
A_EraseAll == \E m \in Names, k \in Keys : EraseAll(m, k) /\ Do("ra", m, k, 0)
A_Clear == \E m \in Names : Clear(m) /\ Do("cl", m, 0, 0)
A_Move == \E m \in Names : MoveAssign(m) /\ Do("ma", m, 0, 0)
A_Store == \E m \in Names, k \in Keys, v \in Vals : Store(m, k, v) /\ Do("st", m, k, v)
A_Through == \E m \in Names : Keep /\ Do("mt", m, 0, 0)
MCNext == A_Insert \/ A_Unique \/ A_EraseFirst \/ A_EraseAll \/ A_Clear \/ A_Move \/ A_Store \/ A_Through
MCSpec == MCInit /\ [][MCNext]_vars
\* nothing is lost or invented by looking up: classes partition the content
Partition == \A m \in Names : Len(maps[m]) = Cardinality(UNION {Nodes(Of(maps[m], k)) : k \in Keys})
\* storage of an association that survives never changes hands
Stable == [][\A m \in Names : \A i \in DOMAIN maps[m] : \A p \in Names : \A j \in DOMAIN maps'[p] :
             (Nd(maps[m][i]) = Nd(maps'[p][j]) /\ hist'[Len(hist')][1] # "em" /\ hist'[Len(hist')][1] # "eu") => K(maps[m][i]) = K(maps'[p][j])]_vars
View == <<[i \in DOMAIN maps["a"] |-> <<K(maps["a"][i]), V(maps["a"][i])>>], [i \in DOMAIN maps["b"] |-> <<K(maps["b"][i]), V(maps["b"][i])>>]>>
Emit == PrintT("S " \o ToJson(hist'))
=============================================================================
