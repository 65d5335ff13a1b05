-------------------------------- MODULE MC_Allocs -------------------------------
(* Owners of blocks: what moving, clearing and destroying owners has to do with     *)
(* the blocks so that each goes back once, to where it came from.                   *)
EXTENDS Allocs, TLC
CONSTANTS Owners, Blocks
VARIABLES owns, home, out, next, returned
vars == <<owns, home, out, next, returned>>
Init == owns = [o \in Owners |-> {}] /\ home = [o \in Owners |-> 0] /\ out = {} /\ next = 1 /\ returned = <<>>
Return(S) == LET RECURSIVE Ord(_)  Ord(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o Ord(T \ {x}) IN returned' = returned \o Ord(S) /\ out' = out \ S
Make(o, a) == home[o] = 0 /\ home' = [home EXCEPT ![o] = a] /\ UNCHANGED <<owns, out, next, returned>>
Grow(o) == home[o] # 0 /\ next <= Blocks /\ LET b == <<home[o], next, 8>> IN owns' = [owns EXCEPT ![o] = @ \cup {b}] /\ out' = out \cup {b} /\ next' = next + 1 /\ UNCHANGED <<home, returned>>
Shrink(o) == \E b \in owns[o] : owns' = [owns EXCEPT ![o] = @ \ {b}] /\ Return({b}) /\ UNCHANGED <<home, next>>
Clear(o) == owns[o] # {} /\ Return(owns[o]) /\ owns' = [owns EXCEPT ![o] = {}] /\ UNCHANGED <<home, next>>
Destroy(o) == home[o] # 0 /\ Return(owns[o]) /\ owns' = [owns EXCEPT ![o] = {}] /\ home' = [home EXCEPT ![o] = 0] /\ UNCHANGED next
Move(o, p) == o # p /\ home[o] # 0 /\ Return(owns[p]) /\ owns' = [owns EXCEPT ![p] = owns[o], ![o] = {}] /\ home' = [home EXCEPT ![p] = home[o], ![o] = 0] /\ UNCHANGED next
Next ==
  \/ \E o \in Owners, a \in {1, 2} : Make(o, a)
  \/ \E o \in Owners : Grow(o)
  \/ \E o \in Owners : Shrink(o)
  \/ \E o \in Owners : Clear(o)
  \/ \E o \in Owners : Destroy(o)
  \/ \E o, p \in Owners : Move(o, p)
Spec == Init /\ [][Next]_vars
OneOwner == \A o, p \in Owners : o # p => owns[o] \cap owns[p] = {}
Home == \A o \in Owners : \A b \in owns[o] : b[1] = home[o] /\ b \in out
NoneLost == out = UNION {owns[o] : o \in Owners}
Once == MayReturn(out, {<<returned[k][1], returned[k][2], returned[k][3]>> : k \in DOMAIN returned}, returned)
AllBack == (\A o \in Owners : home[o] = 0) => out = {} /\ Len(returned) = next - 1
================================================================================
