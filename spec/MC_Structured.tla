--------------------------- MODULE MC_Structured -----------------------------
(* The helpers as a construction: Build turns every text into blocks.  TLC     *)
(* checks for every text within the bounds that what is built is well formed   *)
(* and is what Match asks for, and hands the texts to the driver.              *)
EXTENDS Structured, Json, TLC, IOUtils
CONSTANTS Depth
VARIABLE t
Cn == [k \in 1..10 |-> 1000 + k]
Emit(st, op, args) == [st EXCEPT !.F[st.cur] = Append(@, <<st.n, op, args>>), !.n = @ + 1]
NewBlock(st) == [st EXCEPT !.F = Append(@, <<>>), !.order = Append(@, Len(st.F) + 1)]
B(n) == <<"b", n>>
Mark(st, op, k) == Emit(st, op, <<<<"i", 1>>, <<"d", 0>>, <<"i", 1001>>, <<"i", Cn[k + 1]>>>>)
To(st, lab) == IF st.open THEN [Emit(st, opBranch, <<B(lab)>>) EXCEPT !.open = FALSE] ELSE st
In(st, lab) == [st EXCEPT !.cur = lab, !.open = TRUE]
Last(st, lab) == [st EXCEPT !.order = SelectSeq(@, LAMBDA x : x # lab) \o <<lab>>]
RECURSIVE Build(_, _, _)
Put(st, i) ==
  CASE i[1] = "op" -> Mark(st, opIAdd, i[2])
    [] Exit(i[1]) > 0 -> [Emit(st, Exit(i[1]), <<>>) EXCEPT !.open = FALSE]
    [] i[1] \in {"if", "ife"} ->
         LET s1 == Mark(st, opLess, i[4])  cond == st.n
             T == Len(st.F) + 1
             M == IF i[1] = "if" THEN T + 1 ELSE T + 2
             s2 == IF i[1] = "if" THEN NewBlock(NewBlock(s1)) ELSE NewBlock(NewBlock(NewBlock(s1)))
             s3 == Emit(Emit(s2, opSelectionMerge, <<B(M), <<"l", 0, i[3]>>>>), opBranchConditional, <<<<"i", cond>>, B(T), B(IF i[1] = "if" THEN M ELSE T + 1)>>)
             s4 == To(Build(In(s3, T), i[5], 1), M)
             s5 == IF i[1] = "if" THEN s4 ELSE To(Build(In(s4, T + 1), i[6], 1), M)
         IN Last(In(s5, M), M)
    [] i[1] = "loop" ->
         \* with bodies as blocks the header is the current block itself
         LET own == i[2] = 2
             N == Len(st.F)
             L == IF own THEN st.cur ELSE N + 1
             C == IF own THEN N + 1 ELSE N + 2
             s1 == IF own THEN NewBlock(NewBlock(NewBlock(NewBlock(st)))) ELSE In(To(NewBlock(NewBlock(NewBlock(NewBlock(NewBlock(st))))), L), L)
             s2 == Emit(Emit(s1, opLoopMerge, <<B(C + 3), B(C + 2), <<"l", 0, i[3]>>>>), opBranch, <<B(C)>>)
             s3 == Build(In(s2, C), i[5], 1)
             s4 == Emit(Mark(s3, opLess, i[4]), opBranchConditional, <<<<"i", s3.n>>, B(C + 1), B(C + 3)>>)
             s5 == To(Build(In(Last(s4, C + 1), C + 1), i[7], 1), C + 2)
             s6 == To(Build(In(Last(s5, C + 2), C + 2), i[6], 1), L)
         IN Last(In(s6, C + 3), C + 3)
Build(st, body, j) == IF j > Len(body) THEN st ELSE Build(Put(st, body[j]), body, j + 1)
Whole(body) == LET s == Build([F |-> <<<<>>>>, cur |-> 1, open |-> TRUE, n |-> 2000, order |-> <<1>>], body, 1)
               IN IF s.open THEN Emit(s, opReturn, <<>>) ELSE s
------------------------------------------------------------------------------
O == <<"op", 0>>
Plain == {<<>>, <<O>>}
B0 == {<<>>, <<O>>, <<O, O>>, <<<<"ret">>>>, <<O, <<"kill">>>>}
Items(bodies, small) ==
       {<<"if", v, 0, 0, b>> : v \in {0, 1, 2}, b \in bodies}
  \cup {<<"ife", v, 1, 0, b, c>> : v \in {0, 1, 2}, b \in bodies, c \in small} \cup {<<"ife", 0, 2, 0, c, b>> : b \in bodies, c \in small}
  \cup {<<"loop", v, 0, 0, c, d, b>> : v \in {0, 1, 2}, c \in Plain, d \in Plain, b \in bodies}
\* conditions and increments that contain helpers themselves
Deep == {<<"loop", 0, 1, 0, c, d, b>> : c \in {<<<<"if", 0, 0, 0, <<O>>>>>>, <<O>>}, d \in {<<<<"ife", 0, 0, 0, <<>>, <<O>>>>>>, <<<<"loop", 0, 0, 0, <<>>, <<>>, <<O>>>>>>, <<>>}, b \in B0}
B1 == B0 \cup {<<i>> \o r : i \in Items(B0, B0) \cup Deep, r \in {<<>>, <<O>>}}
B1s == B0 \cup {<<i>> \o r : i \in {<<"if", 0, 0, 0, <<O>>>>, <<"ife", 0, 0, 0, <<>>, <<<<"ret">>>>>>, <<"ife", 0, 0, 0, <<<<"ret">>>>, <<<<"unr">>>>>>, <<"loop", 0, 0, 0, <<>>, <<O>>, <<>>>>, <<"loop", 0, 0, 0, <<>>, <<>>, <<<<"ret">>>>>>}, r \in {<<>>, <<O>>, <<<<"ret">>>>}}
B2 == {<<i>> : i \in Items(B1s, {<<>>, <<O>>, <<<<"ret">>>>})}
B3 == {<<O, i>> : i \in Items({b \in B2 : b[1][2] = 0}, {<<>>})}
Texts == B1 \cup B2 \cup (IF Depth > 2 THEN B3 ELSE {})
MCInit == t \in Texts
MCNext == UNCHANGED t
MCSpec == MCInit /\ [][MCNext]_t
BuiltRight == LET s == Whole(t) IN
  /\ WellFormed(s.F)
  /\ Match(s.F, 1, Cn, t).ok
  /\ OrderOk(s.F, s.order)
\* the matcher is not vacuous: without its last block's last instruction nothing matches
Sharp == LET s == Whole(t)  k == s.order[Len(s.order)] IN ~Match([s.F EXCEPT ![k] = SubSeq(@, 1, Len(@) - 1)], 1, Cn, t).ok
Out == PrintT("S " \o ToJson(t))
=============================================================================
