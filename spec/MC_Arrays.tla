------------------------------ MODULE MC_Arrays ------------------------------
(* Exhaustive exploration with small constants.  `room` is a lower bound of   *)
(* the storage requested so far: it keeps states apart in which the real      *)
(* array has spare room or has to grow.  Every transition is emitted as a     *)
(* script for the driver.                                                     *)
EXTENDS Arrays, TLC, Json, FiniteSets
CONSTANTS MaxLen, MaxVal, MaxRoom, Kind
VARIABLES room, hist
mcvars == <<seqs, room, hist>>
Values == 1..MaxVal
Blocks == {<<>>} \cup {<<v>> : v \in Values} \cup {<<1, 2>>, <<2, 1, 1>>}
Do(o, x, i, n, t) == hist' = Append(hist, <<o, x, i, n, t>>)
Grow == room' = [x \in Names |-> IF Len(seqs'[x]) > room[x] THEN Len(seqs'[x]) ELSE room[x]]
Fits == \A x \in Names : Len(seqs'[x]) <= MaxLen
MCInit == AInit /\ room = [x \in Names |-> 0] /\ hist = <<>>

V_Push == \E x \in Names, v \in Values : PushBack(x, v) /\ Do("eb", x, 0, 0, <<v>>) /\ Grow
V_Insert == \E x \in Names, p \in 0..(MaxLen + 1), t \in Blocks : Insert(x, p, t) /\ Do("in", x, p, 0, t) /\ Grow
V_Resize == \E x \in Names, n \in 0..MaxLen, v \in {0, 1} : Resize(x, n, v) /\ Do("rs", x, 0, n, <<v>>) /\ Grow
V_Reserve == \E x \in Names, n \in 1..MaxRoom : Keep /\ Do("rv", x, 0, n, <<>>) /\ room' = [room EXCEPT ![x] = IF n > @ THEN n ELSE @]
V_Fill == \E x \in Names, p \in 0..MaxLen, c \in {-1, 0, 1, 2} : Fill(x, p, c, 2) /\ Do("fl", x, p, c, <<2>>) /\ Grow
V_Own == \E x \in Names : \E i \in 0..(Len(seqs[x]) - 1) :
            \/ PushOwn(x, i) /\ Do("eo", x, i, 0, <<>>) /\ Grow
            \/ \E p \in 0..Len(seqs[x]), c \in {1, 2} : InsertOwn(x, p, i, c) /\ Do("no", x, p, c, <<i>>) /\ Grow
            \/ \E n \in 0..MaxLen : ResizeOwn(x, n, i) /\ Do("ro", x, i, n, <<>>) /\ Grow
S_Own == \E x \in Names : \/ AppendOwn(x, 0) /\ Do("so", x, 0, 0, <<>>) /\ Grow
                          \/ \E i \in 0..(Len(seqs[x]) - 1) : \/ PushOwn(x, i) /\ Do("eo", x, i, 0, <<>>) /\ Grow
                                                              \/ AppendOwn(x, i) /\ Do("ao", x, i, 0, <<>>) /\ Grow
                          \/ \E p \in 0..Len(seqs[x]) : seqs[x] # <<>> /\ InsertOwn(x, p, 0, Len(seqs[x])) /\ Do("no", x, p, Len(seqs[x]), <<0>>) /\ Grow
V_Assign == \E x \in Names, t \in {<<1, 2>>, <<2, 2, 1>>} : Assign(x, t) /\ Do("aa", x, 0, 0, t) /\ Grow
Common == \E x \in Names : \/ Clear(x) /\ Do("cl", x, 0, 0, <<>>) /\ Grow
                           \/ CopyAssign(x) /\ Do("ca", x, 0, 0, <<>>) /\ Grow
                           \/ MoveAssign(x) /\ Do("ma", x, 0, 0, <<>>) /\ room' = [room EXCEPT ![x] = room[Other(x)], ![Other(x)] = 0]
                           \/ Keep /\ Do("cc", x, 0, 0, <<>>) /\ Grow
                           \/ Keep /\ Do("sa", x, 0, 0, <<>>) /\ Grow
S_Append == \E x \in Names, t \in Blocks : \/ AppendAll(x, t) /\ Do("ap", x, 0, 0, t) /\ Grow
                                           \/ t # <<>> /\ AppendAll(x, t) /\ Do("al", x, 0, 0, t) /\ Grow
S_AppendOther == \E x \in Names : AppendAll(x, seqs[Other(x)]) /\ Do("pe", x, 0, 0, <<>>) /\ Grow
S_Concat == \E x \in Names : \/ Concat(x, seqs[x]) /\ Do("pl", x, 0, 0, <<>>) /\ Grow
                             \/ \E t \in Blocks : Concat(x, t) /\ Do("pc", x, 0, 0, t) /\ Grow
S_Insert == \E x \in Names : \E p \in 0..Len(seqs[x]) : \/ \E t \in Blocks \ {<<>>} : Insert(x, p, t) /\ Do("in", x, p, 0, t) /\ Grow
                                                        \/ Insert(x, p, seqs[Other(x)]) /\ Do("io", x, p, 0, <<>>) /\ Grow
S_Assign == \E x \in Names, t \in Blocks : Assign(x, t) /\ Do("as", x, 0, 0, t) /\ Grow
S_Sub == \E x \in Names, o \in 0..(MaxLen + 1), k \in 1..(MaxLen + 1) : Keep /\ Do("su", x, o, k, <<>>) /\ Grow
MCNext == /\ IF Kind = "vec" THEN V_Push \/ V_Own \/ V_Insert \/ V_Resize \/ V_Reserve \/ V_Fill \/ V_Assign \/ Common
             ELSE V_Push \/ S_Own \/ Common \/ S_Append \/ S_AppendOther \/ S_Concat \/ S_Insert \/ S_Assign \/ S_Sub \/ V_Reserve
          /\ Fits
MCSpec == MCInit /\ [][MCNext]_mcvars
View == <<seqs, room>>
Bounded == \A x \in Names : Len(seqs[x]) <= MaxLen
Emit == PrintT("S " \o ToJson(hist'))
=============================================================================
