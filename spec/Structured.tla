----------------------------- MODULE Structured ------------------------------
(* Structured control flow helpers (if, if-else, loop).  A program text is a   *)
(* sequence of items                                                           *)
(*   <<"op", k>>                      the operation marked k                   *)
(*   <<"if", v, mask, k, body>>       v: 0 bodies as functions, 1 also with a  *)
(*   <<"ife", v, mask, k, b1, b2>>       merge block given, 2 bodies as blocks *)
(*   <<"loop", v, mask, k, cond, cont, body>>   k: marker of the condition     *)
(*   <<"ret">> <<"kill">> <<"unr">>   leave the function                       *)
(* A function is a map from blocks to their instructions <<node, op, args>>.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt
opIAdd == 128        opLess == 177
opPhi == 245         opLoopMerge == 246    opSelectionMerge == 247
opBranch == 249      opBranchConditional == 250
opSwitch == 251      opKill == 252         opReturn == 253   opReturnValue == 254   opUnreachable == 255
Terminators == {opBranch, opBranchConditional, opSwitch, opKill, opReturn, opReturnValue, opUnreachable}
Exit(t) == CASE t = "ret" -> opReturn [] t = "kill" -> opKill [] t = "unr" -> opUnreachable [] OTHER -> -1
Op(i) == i[2]
Arg(i, n) == IF n <= Len(i[3]) THEN i[3][n] ELSE <<"0">>
IsBlk(o) == o[1] \in {"b", "i"}
Blk(o) == o[2]
------------------------------------------------------------------------------
(* Matching: does the function F (block -> instructions) realise the text?     *)
(* State s: [ok, lab, i, open, seen]: instructions 1..i-1 of block lab are     *)
(* accounted for, seen: blocks visited, in order.                              *)
At(F, s) == IF s.lab \in DOMAIN F /\ s.i <= Len(F[s.lab]) THEN F[s.lab][s.i] ELSE <<0, -1, <<>>>>
IsLast(F, s) == s.lab \in DOMAIN F /\ s.i = Len(F[s.lab])
Fail(s, why) == IF s.ok THEN [s EXCEPT !.ok = FALSE, !.why = <<why, s.lab, s.i>>] ELSE s
Need(s, c, why) == IF s.ok /\ ~c THEN Fail(s, why) ELSE s
Goto(s, lab) == [s EXCEPT !.lab = lab, !.i = 1, !.open = TRUE, !.seen = Append(@, lab)]
Skip(s) == [s EXCEPT !.i = @ + 1]
(* the open end of an arm has to branch to `to`; a left arm needs nothing      *)
Join(F, s, to) ==
  IF ~s.ok \/ ~s.open THEN s
  ELSE Need(s, Op(At(F, s)) = opBranch /\ IsLast(F, s) /\ IsBlk(Arg(At(F, s), 1)) /\ Blk(Arg(At(F, s), 1)) = to, <<"does not branch on to", to>>)
Marker(F, s, op, c, k) == LET i == At(F, s) IN Op(i) = op /\ Arg(i, 4) = <<"i", c[k + 1]>>
RECURSIVE Run(_, _, _, _, _)
Item(F, c, t, s) ==
  LET i == At(F, s) IN
  CASE t[1] = "op" -> LET n == Need(s, Marker(F, s, opIAdd, c, t[2]), <<"operation", t[2], "missing">>) IN Skip(n)
    [] Exit(t[1]) > 0 -> LET n == Need(s, Op(i) = Exit(t[1]) /\ IsLast(F, s), <<"exit", t[1]>>) IN [n EXCEPT !.open = FALSE]
    [] t[1] \in {"if", "ife"} ->
         LET n1 == Skip(Need(s, Marker(F, s, opLess, c, t[4]), <<"condition", t[4]>>))
             cond == i[1]
             sm == At(F, n1)
             n2 == Need(n1, Op(sm) = opSelectionMerge /\ IsBlk(Arg(sm, 1)) /\ Arg(sm, 2) = <<"l", 0, t[3]>>, "selection merge")
             br == At(F, Skip(n2))
             n3 == Need(Skip(n2), Op(br) = opBranchConditional /\ IsLast(F, Skip(n2)) /\ Arg(br, 1) = <<"i", cond>>
                                  /\ Len(br[3]) = 3 /\ IsBlk(Arg(br, 2)) /\ IsBlk(Arg(br, 3)), "conditional branch")
         IN IF ~n3.ok THEN n3 ELSE
            LET merge == Blk(Arg(sm, 1))
                n4 == Join(F, Run(F, c, t[5], 1, Goto(n3, Blk(Arg(br, 2)))), merge)
                n5 == IF t[1] = "if" THEN Need(n4, Blk(Arg(br, 3)) = merge, "false branch is not the merge block")
                      ELSE Join(F, Run(F, c, t[6], 1, Goto(n4, Blk(Arg(br, 3)))), merge)
            IN Goto(n5, merge)
    [] t[1] = "loop" ->
         LET n0 == IF t[2] = 2 THEN s
                   ELSE LET n == Need(s, Op(i) = opBranch /\ IsLast(F, s) /\ IsBlk(Arg(i, 1)), "branch to the loop header") IN
                        IF n.ok THEN Goto(n, Blk(Arg(i, 1))) ELSE n
             header == n0.lab
             lm == At(F, n0)
             n1 == Need(n0, Op(lm) = opLoopMerge /\ IsBlk(Arg(lm, 1)) /\ IsBlk(Arg(lm, 2)) /\ Arg(lm, 3) = <<"l", 0, t[3]>>, "loop merge")
             br == At(F, Skip(n1))
             n2 == Need(Skip(n1), Op(br) = opBranch /\ IsLast(F, Skip(n1)) /\ IsBlk(Arg(br, 1)), "branch to the condition")
         IN IF ~n2.ok THEN n2 ELSE
            LET merge == Blk(Arg(lm, 1))  cont == Blk(Arg(lm, 2))
                n3 == Run(F, c, t[5], 1, Goto(n2, Blk(Arg(br, 1))))
                cond == At(F, n3)[1]
                n4 == Skip(Need(n3, n3.open /\ Marker(F, n3, opLess, c, t[4]), <<"loop condition", t[4]>>))
                cb == At(F, n4)
                n5 == Need(n4, Op(cb) = opBranchConditional /\ IsLast(F, n4) /\ Len(cb[3]) = 3 /\ Arg(cb, 1) = <<"i", cond>> /\ IsBlk(Arg(cb, 2))
                               /\ IsBlk(Arg(cb, 3)) /\ Blk(Arg(cb, 3)) = merge, "loop exit")
            IN IF ~n5.ok THEN n5 ELSE
               LET n6 == Join(F, Run(F, c, t[7], 1, Goto(n5, Blk(Arg(cb, 2)))), cont)
                   n7 == Join(F, Run(F, c, t[6], 1, Goto(n6, cont)), header)
               IN Goto(n7, merge)
    [] OTHER -> Fail(s, <<"unknown item", t[1]>>)
Run(F, c, body, j, s) == IF ~s.ok \/ j > Len(body) THEN s ELSE Run(F, c, body, j + 1, Item(F, c, body[j], s))
Start(entry) == [ok |-> TRUE, why |-> <<>>, lab |-> entry, i |-> 1, open |-> TRUE, seen |-> <<entry>>]
(* the whole function: text, then the return put into the block building goes on in *)
Match(F, entry, c, body) ==
  LET r == Run(F, c, body, 1, Start(entry))
      e == IF r.ok /\ r.open THEN Need(r, Op(At(F, r)) = opReturn /\ IsLast(F, r), "building does not go on here") ELSE r
  IN IF ~e.ok THEN e
     ELSE Need(e, Len(e.seen) = Cardinality(DOMAIN F) /\ {e.seen[i] : i \in DOMAIN e.seen} = DOMAIN F, <<"blocks", e.seen, DOMAIN F>>)
------------------------------------------------------------------------------
(* Well-formedness, stated on the blocks alone                                 *)
Succ(F, b) == LET t == F[b][Len(F[b])] IN
  IF F[b] = <<>> THEN {} ELSE
  IF Op(t) = opBranch THEN {Blk(t[3][1])} ELSE IF Op(t) = opBranchConditional THEN {Blk(t[3][2]), Blk(t[3][3])} ELSE {}
RECURSIVE Closure(_, _, _, _)
Closure(F, done, todo, not) == IF todo = {} THEN done
  ELSE LET next == UNION {Succ(F, b) : b \in todo} IN Closure(F, done \cup todo, (next \ (done \cup todo)) \ not, not)
Reach(F, entry, not) == IF entry \in not THEN {} ELSE Closure(F, {}, {entry}, not)
OneTerminator(F) == \A b \in DOMAIN F : F[b] # <<>> /\ \A i \in 1..Len(F[b]) : (Op(F[b][i]) \in Terminators) <=> (i = Len(F[b]))
MergesPlaced(F) == \A b \in DOMAIN F : \A i \in 1..Len(F[b]) :
    Op(F[b][i]) \in {opLoopMerge, opSelectionMerge} => i = Len(F[b]) - 1 /\ Op(F[b][Len(F[b])]) \in {opBranch, opBranchConditional}
HeadersMarked(F) == \A b \in DOMAIN F : Op(F[b][Len(F[b])]) = opBranchConditional =>
    \/ Len(F[b]) > 1 /\ Op(F[b][Len(F[b]) - 1]) = opSelectionMerge
    \/ \E h \in DOMAIN F : \E i \in 1..Len(F[h]) : Op(F[h][i]) = opLoopMerge /\ Blk(F[h][i][3][1]) \in Succ(F, b)
TargetsExist(F) == \A b \in DOMAIN F : Succ(F, b) \subseteq DOMAIN F
(* a block stands in front of the blocks it dominates                          *)
OrderOk(F, order) ==
  LET all == Reach(F, order[1], {}) IN
  \A i \in 2..Len(order) : order[i] \in all =>
    LET without == Reach(F, order[1], {order[i]}) IN \A j \in 2..(i - 1) : order[j] \in all => order[j] \in without
WellFormed(F) == OneTerminator(F) /\ TargetsExist(F) /\ MergesPlaced(F) /\ HeadersMarked(F)
=============================================================================
