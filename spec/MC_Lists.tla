------------------------------ MODULE MC_Lists -------------------------------
(* Exhaustive exploration of the list specification with small constants.     *)
(* Each transition taken is printed as the script that leads to it: these     *)
(* scripts are replayed against the real list (one test per transition).      *)
EXTENDS Lists, TLC, Json
CONSTANTS MaxLen, MaxVal
VARIABLE hist
mcvars == <<lst, det, hist>>

Fresh == CHOOSE n \in 1..(LiveCount + 1) : n \notin LiveIds /\ \A m \in 1..(n-1) : m \in LiveIds
Idx(l) == 0..(Len(lst[l]) - 1)
Do(o, l, i, v) == hist' = Append(hist, <<o, l, i, v>>)
Values == 1..MaxVal
Room(l) == Len(lst[l]) < MaxLen

MCInit == LInit /\ hist = <<>>
A_PushBack == \E l \in Names, v \in Values : Room(l) /\ PushBack(l, v, Fresh) /\ Do("eb", l, 0, v)
A_PushFront == \E l \in Names, v \in Values : Room(l) /\ PushFront(l, v, Fresh) /\ Do("ef", l, 0, v)
A_InsertBefore == \E l \in Names, v \in Values : Room(l) /\ \E i \in Idx(l) : InsertBefore(l, i, v, Fresh) /\ Do("ib", l, i, v)
A_InsertAfter == \E l \in Names, v \in Values : Room(l) /\ \E i \in Idx(l) : InsertAfter(l, i, v, Fresh) /\ Do("ia", l, i, v)
A_Erase == \E l \in Names : \E i \in Idx(l) : Erase(l, i) /\ Do("er", l, i, 0)
A_Unlink == \E l \in Names : \E i \in Idx(l) : Len(det) < 1 /\ Unlink(l, i) /\ Do("ed", l, i, 0)
A_LinkBack == \E l \in Names : Room(l) /\ det # <<>> /\ LinkBack(l, 1) /\ Do("ap", l, 1, 0)
A_LinkFront == \E l \in Names : Room(l) /\ det # <<>> /\ LinkFront(l, 1) /\ Do("pp", l, 1, 0)
A_Pop == \E l \in Names : \/ PopBack(l) /\ Do("pb", l, 0, 0)
                          \/ PopFront(l) /\ Do("pf", l, 0, 0)
A_Clear == \E l \in Names : Clear(l) /\ Do("cl", l, 0, 0)
A_Copy == \E l \in Names : LET src == lst[Other(l)]
                               free == CHOOSE f \in [DOMAIN src -> 1..(2 * MaxLen + 2)] :
                                         /\ \A i \in DOMAIN src : f[i] \notin (NodeIds(src) \cup NodeIds(det))
                                         /\ \A i, j \in DOMAIN src : f[i] = f[j] => i = j
                           IN CopyAssign(l, free) /\ Do("ca", l, 0, 0)
A_Move == \E l \in Names : MoveAssign(l) /\ Do("ma", l, 0, 0)
A_Misc == \E l \in Names : \/ MoveThrough(l) /\ Do("mt", l, 0, 0)
                           \/ SelfAssign(l) /\ Do("sa", l, 0, 0)
                           \/ Query /\ Do("cc", l, 0, 0)     \* copy construction leaves both alone
                           \/ \E v \in Values : Query /\ Do("fi", l, 0, v)
MCNext == A_PushBack \/ A_PushFront \/ A_InsertBefore \/ A_InsertAfter \/ A_Erase \/ A_Unlink \/ A_LinkBack
          \/ A_LinkFront \/ A_Pop \/ A_Clear \/ A_Copy \/ A_Move \/ A_Misc
MCSpec == MCInit /\ [][MCNext]_mcvars

\* properties of the abstract list
NodesDistinct == /\ Cardinality(LiveIds) = LiveCount
                 /\ \A l \in Names : Len(lst[l]) <= MaxLen
\* a node that survives a step keeps its value
KeepsValues == [][\A l, m \in Names : \A i \in DOMAIN lst[l], j \in DOMAIN lst'[m] :
                   (Id(lst[l][i]) = Id(lst'[m][j])) => (Val(lst[l][i]) = Val(lst'[m][j]) \/ hist'[Len(hist')][1] = "ca")]_mcvars
\* the abstract state, with the storage renamed away
View == <<Vals(lst["a"]), Vals(lst["b"]), Vals(det)>>
Emit == PrintT("S " \o ToJson(hist'))
=============================================================================
