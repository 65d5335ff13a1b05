------------------------------ MODULE HashMaps -------------------------------
(* Two (multi) maps as bags of associations in insertion order.               *)
(* Keys with equal hash are one class: the map compares hashes only, so an    *)
(* "equal key" is a key of the same class.  `cls` maps a key to its class.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES maps, cls
hvars == <<maps, cls>>
Names == {"a", "b"}
Other(m) == IF m = "a" THEN "b" ELSE "a"
\* an association <<key, value, node>>; node names its storage
K(x) == x[1]
V(x) == x[2]
Nd(x) == x[3]
Class(k) == cls[k + 1]
Of(s, k) == SelectSeq(s, LAMBDA x : Class(K(x)) = Class(k))
Without(s, n) == SelectSeq(s, LAMBDA x : Nd(x) # n)
HasKey(m, k) == Of(maps[m], k) # <<>>
Nodes(s) == {Nd(s[i]) : i \in DOMAIN s}
Init0(c) == maps = [m \in Names |-> <<>>] /\ cls = c

Insert(m, k, v, n) == /\ n \notin Nodes(maps[m]) \cup Nodes(maps[Other(m)])
                      /\ maps' = [maps EXCEPT ![m] = Append(@, <<k, v, n>>)] /\ UNCHANGED cls
\* inserting uniquely: an equal key keeps its value
InsertUnique(m, k, v, n) == IF HasKey(m, k) THEN n = Nd(Of(maps[m], k)[1]) /\ UNCHANGED hvars
                            ELSE Insert(m, k, v, n)
EraseFirst(m, k) == /\ maps' = [maps EXCEPT ![m] = IF HasKey(m, k) THEN Without(@, Nd(Of(@, k)[1])) ELSE @]
                    /\ UNCHANGED cls
EraseAll(m, k) == /\ maps' = [maps EXCEPT ![m] = SelectSeq(@, LAMBDA x : Class(K(x)) # Class(k))]
                  /\ UNCHANGED cls
Clear(m) == maps' = [maps EXCEPT ![m] = <<>>] /\ UNCHANGED cls
MoveAssign(m) == maps' = [maps EXCEPT ![m] = maps[Other(m)], ![Other(m)] = <<>>] /\ UNCHANGED cls
Store(m, k, v) == /\ HasKey(m, k)
                  /\ LET n == Nd(Of(maps[m], k)[1]) IN
                     maps' = [maps EXCEPT ![m] = [i \in DOMAIN @ |-> IF Nd(@[i]) = n THEN <<K(@[i]), v, n>> ELSE @[i]]]
                  /\ UNCHANGED cls
Keep == UNCHANGED hvars
=============================================================================
