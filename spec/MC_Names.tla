------------------------------ MODULE MC_Names -------------------------------
EXTENDS Names, Json
CONSTANT Depth
VARIABLES N, hist
\* two structs, a value, an instruction without result
K == <<"s", "s", "r", "x">>
Strs == {<<>>, <<97>>, <<97, 98>>, <<97, 98, 99, 100>>, <<97, 98, 99, 100, 101>>, <<200, 1, 0 + 255, 65>>}
Few == {<<97>>, <<97, 98>>, <<97, 98, 99, 100>>}
Gives == {<<"name", t, s>> : t \in 1..4, s \in Strs} \cup {<<"mem", t, m, s>> : t \in {1, 2, 3}, m \in {0, 1, 97, 25185}, s \in Few}
Steps == Gives \cup {<<"drop", t>> : t \in 1..3} \cup {<<"back">>}
Init == N = <<>> /\ hist = <<>>
Next == Len(hist) < Depth /\ \E s \in Steps : N' = Effect(N, K, s) /\ hist' = Append(hist, s)
Spec == Init /\ [][Next]_<<N, hist>>
\* what the instructions say is what was given
Carried == Back(Emit(N)) = N
\* lookups by string through the instructions: only whole names of targets themselves match
ByWords == \A b \in Strs : LET I == Emit(N)  S == {I[i][2] : i \in {j \in DOMAIN I : I[j][1] = 5 /\ I[j][3] = StrWords(b)}} IN Finds(N, b) = IF S = {} THEN {0} ELSE S
\* a step concerns one target
Isolated == [][\A t \in 1..4 : (\/ hist'[Len(hist')][1] = "back" \/ (hist'[Len(hist')][1] # "back" /\ hist'[Len(hist')][2] # t)) => List(N', t) = List(N, t)]_<<N, hist>>
Given == \A t \in 1..4 : (\A i \in DOMAIN hist : hist[i][1] \notin {"name", "mem"} \/ hist[i][2] # t) => List(N, t) = {} /\ Gets(N, t, -1) = {<<>>}
Out == Len(hist) = Depth => PrintT("S " \o ToJson(hist))
=============================================================================
