-------------------------------- MODULE Lists --------------------------------
(* The doubly linked list as a sequence of nodes.  A node is <<id, value>>:   *)
(* the id is its storage (an address), which has to stay the same as long as  *)
(* the node is not removed.  `det` holds nodes that were unlinked without     *)
(* being destroyed and may be linked in again.                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES lst,   \* list name -> sequence of nodes
          det    \* sequence of unlinked nodes

lvars == <<lst, det>>
Names == {"a", "b"}
Other(l) == IF l = "a" THEN "b" ELSE "a"

Id(n) == n[1]
Val(n) == n[2]
NodeIds(s) == {Id(s[i]) : i \in DOMAIN s}
Vals(s) == [i \in DOMAIN s |-> Val(s[i])]
LiveIds == NodeIds(lst["a"]) \cup NodeIds(lst["b"]) \cup NodeIds(det)
LiveCount == Len(lst["a"]) + Len(lst["b"]) + Len(det)

InsertAt(s, k, x) == SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))  \* x becomes element k+1
RemoveAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
\* index (0 based) of the first element with value v, -1 if none
FindIdx(s, v) == IF \E i \in DOMAIN s : Val(s[i]) = v
                 THEN (CHOOSE i \in DOMAIN s : Val(s[i]) = v /\ \A j \in 1..(i-1) : Val(s[j]) # v) - 1
                 ELSE -1

LInit == lst = [l \in Names |-> <<>>] /\ det = <<>>

PushBack(l, v, n) == n \notin LiveIds /\ lst' = [lst EXCEPT ![l] = Append(@, <<n, v>>)] /\ UNCHANGED det
PushFront(l, v, n) == n \notin LiveIds /\ lst' = [lst EXCEPT ![l] = <<<<n, v>>>> \o @] /\ UNCHANGED det
InsertBefore(l, i, v, n) == /\ n \notin LiveIds /\ i \in 0..(Len(lst[l]) - 1)
                            /\ lst' = [lst EXCEPT ![l] = InsertAt(@, i, <<n, v>>)] /\ UNCHANGED det
InsertAfter(l, i, v, n) ==  /\ n \notin LiveIds /\ i \in 0..(Len(lst[l]) - 1)
                            /\ lst' = [lst EXCEPT ![l] = InsertAt(@, i + 1, <<n, v>>)] /\ UNCHANGED det
Erase(l, i) == /\ i \in 0..(Len(lst[l]) - 1)
               /\ lst' = [lst EXCEPT ![l] = RemoveAt(@, i + 1)] /\ UNCHANGED det
\* what erase returns: index of the element that followed, -1 at the end
EraseResult(l, i) == IF i + 1 < Len(lst[l]) THEN i ELSE -1
Unlink(l, i) == /\ i \in 0..(Len(lst[l]) - 1)
                /\ det' = Append(det, lst[l][i + 1])
                /\ lst' = [lst EXCEPT ![l] = RemoveAt(@, i + 1)]
LinkBack(l, k) == /\ k \in DOMAIN det
                  /\ lst' = [lst EXCEPT ![l] = Append(@, det[k])] /\ det' = RemoveAt(det, k)
LinkFront(l, k) == /\ k \in DOMAIN det
                   /\ lst' = [lst EXCEPT ![l] = <<det[k]>> \o @] /\ det' = RemoveAt(det, k)
PopBack(l) == lst[l] # <<>> /\ lst' = [lst EXCEPT ![l] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED det
PopFront(l) == lst[l] # <<>> /\ lst' = [lst EXCEPT ![l] = Tail(@)] /\ UNCHANGED det
Clear(l) == lst' = [lst EXCEPT ![l] = <<>>] /\ UNCHANGED det
\* storage of the assigned list is its own business, but must be disjoint from everything else
CopyAssign(l, ids) == LET src == lst[Other(l)] IN
    /\ Len(ids) = Len(src)
    /\ \A i, j \in DOMAIN ids : ids[i] = ids[j] => i = j
    /\ \A i \in DOMAIN ids : ids[i] \notin (NodeIds(src) \cup NodeIds(det))
    /\ lst' = [lst EXCEPT ![l] = [i \in DOMAIN src |-> <<ids[i], Val(src[i])>>]] /\ UNCHANGED det
SelfAssign(l) == UNCHANGED lvars
MoveAssign(l) == lst' = [lst EXCEPT ![l] = lst[Other(l)], ![Other(l)] = <<>>] /\ UNCHANGED det
\* move out of the list and back: through a temporary object
MoveThrough(l) == UNCHANGED lvars
Query == UNCHANGED lvars
=============================================================================
