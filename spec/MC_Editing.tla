------------------------------ MODULE MC_Editing -------------------------------
(* Edits of a small program, as records <<owner, references>> by name: function  *)
(* 1 (parameter 11, block 12: 13 adds, 14 returns), 2 (blocks 21, 31, 41, 51),   *)
(* 3 (parameter 61, block 62: 63 returns); names and decorations 71..83.         *)
(* Uses are collected before anything goes, annotations go with their target, so *)
(* no reference is ever left to something that is gone.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Steps
VARIABLES prog, hist
vars == <<prog, hist>>
P0 == [x \in {1, 2, 3, 11, 12, 13, 14, 21, 22, 23, 24, 31, 32, 33, 34, 41, 42, 51, 52, 53, 61, 62, 63, 71, 72, 73, 74, 81, 82, 83} |->
  CASE x \in {1, 2, 3} -> <<0, <<>>>>
    [] x = 11 -> <<1, <<>>>> [] x = 12 -> <<1, <<>>>> [] x = 13 -> <<12, <<11, 11>>>> [] x = 14 -> <<12, <<>>>>
    [] x = 21 -> <<2, <<>>>> [] x = 22 -> <<21, <<>>>> [] x = 23 -> <<21, <<22, 22>>>> [] x = 24 -> <<21, <<31, 41>>>>
    [] x = 31 -> <<2, <<>>>> [] x = 32 -> <<31, <<1, 22>>>> [] x = 33 -> <<31, <<23, 22>>>> [] x = 34 -> <<31, <<41>>>>
    [] x = 41 -> <<2, <<>>>> [] x = 42 -> <<41, <<>>>>
    [] x = 51 -> <<2, <<>>>> [] x = 52 -> <<51, <<22, 22>>>> [] x = 53 -> <<51, <<41>>>>
    [] x = 61 -> <<3, <<>>>> [] x = 62 -> <<3, <<>>>> [] x = 63 -> <<62, <<>>>>
    [] x = 71 -> <<0, <<1>>>> [] x = 72 -> <<0, <<11>>>> [] x = 73 -> <<0, <<31>>>> [] x = 74 -> <<0, <<23>>>>
    [] x = 81 -> <<0, <<33>>>> [] x = 82 -> <<0, <<13>>>> [] x = 83 -> <<0, <<1, 1, 3>>>>]
Values == {11, 13, 22, 23, 33, 52}
Notes == {71, 72, 73, 74, 81, 82}
Terms == {14, 24, 34, 42, 53, 63}
Blocks == {31, 41, 51}
Live == DOMAIN prog
Init == prog = P0 /\ hist = <<>>
Log(x) == Len(hist) < Steps /\ hist' = Append(hist, x)
Users(x) == {u \in Live : \E k \in DOMAIN prog[u][2] : prog[u][2][k] = x}
RECURSIVE Owned(_)
Owned(S) == LET T == S \cup {x \in Live : prog[x][1] \in S} IN IF T = S THEN S ELSE Owned(T)
Swapped(p, x, y) == [u \in DOMAIN p |-> <<p[u][1], [k \in DOMAIN p[u][2] |-> IF p[u][2][k] = x THEN y ELSE p[u][2][k]]>>]
Drop(p, S) == [u \in DOMAIN p \ S |-> p[u]]
\* owned results nobody outside uses, annotations apart
Private(S) == \A x \in S : Users(x) \subseteq S \cup Notes
Swap(x, y) == {x, y} \subseteq Live /\ x # y /\ prog' = Swapped(prog, x, y) /\ Log(<<"replace", x, y>>)
Gather(x) == x \in Live /\ prog' = prog /\ Log(<<"gather", x>>)
RmInstr(x) == x \in Live /\ Users(x) = {} /\ prog' = Drop(prog, {x}) /\ Log(<<"instr", x>>)
RmBlock(b, r) == {b, r} \subseteq Live /\ b # r /\ LET S == Owned({b}) IN
  Private(S \ {b}) /\ prog' = Swapped(Drop(prog, S \cup {n \in Notes \cap Live : prog[n][2][1] \in S \ {b}}), b, r) /\ Log(<<"block", b, r>>)
RmBlock0(b) == b \in Live /\ Private(Owned({b})) /\ LET S == Owned({b}) IN
  prog' = Drop(prog, S \cup {n \in Notes \cap Live : prog[n][2][1] \in S}) /\ Log(<<"block", b, 0>>)
RmFun(f, r) == {f, r} \subseteq Live /\ f # r /\ LET S == Owned({f}) IN
  Private(S \ {f}) /\ prog' = Swapped(Drop(prog, S \cup {n \in Notes \cap Live : prog[n][2][1] \in S \ {f}}), f, r) /\ Log(<<"function", f, r>>)
Next ==
  \/ \E x, y \in Values : Swap(x, y)
  \/ \E x \in {1, 11, 13, 22, 23} : Gather(x)
  \/ \E x \in (Values \ {11}) \cup Notes \cup {32} : RmInstr(x)
  \/ \E b, r \in Blocks : RmBlock(b, r)
  \/ \E b \in Blocks : RmBlock0(b)
  \/ \E f, r \in {1, 3} : RmFun(f, r)
Spec == Init /\ [][Next]_vars
View == <<prog, Len(hist)>>
NoDangling == \A u \in Live : \A k \in DOMAIN prog[u][2] : prog[u][2][k] \in Live
Housed == \A u \in Live : prog[u][1] = 0 \/ prog[u][1] \in Live
Out == Len(hist) = Steps => PrintT("S " \o ToJson(hist))
================================================================================
