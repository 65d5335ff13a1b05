------------------------------ MODULE MC_Generic ------------------------------
(* Requests with every pair of types of a universe, and chains of requests, each  *)
(* applied to the result of the one before (as left or as right operand).         *)
EXTENDS Generic, Json
CONSTANTS Mode, Depth, Emit
VARIABLES start, top, chain
vars == <<start, top, chain>>
F32 == F(32)  I32 == I(32)  U32 == U(32)
Ptr(c, t) == <<"Ptr", c, t>>
Universe == {B, I(8), U(8), I(16), U(16), I32, U32, I(64), U(64), F(16), F32, F(64)}
  \cup {V(t, n) : t \in {B, I32, U32, F32}, n \in {2, 3, 4}} \cup {V(F(64), 2), V(F(64), 3), V(F(16), 2), V(I(64), 2), V(U(64), 2), V(U(16), 3)}
  \cup {M(V(F32, r), c) : r, c \in {2, 3, 4}} \cup {M(V(F(64), 2), 2), M(V(F(64), 3), 2), M(V(F(16), 2), 2)}
  \cup {Ptr(7, F32), Ptr(7, I32), <<"Struct", <<F32, F32>>>>, <<"Struct", <<I32>>>>, <<"Arr", F32, 2>>, <<"Arr", I32, 2>>, <<"Sampler">>, <<"Img", F32, 1, 0, 0, 0, 1, 0, -1>>}
Small == {B, I32, U32, F32, V(F32, 2), V(F32, 3), V(I32, 2), V(U32, 2), V(B, 2), M(V(F32, 2), 2), M(V(F32, 3), 2), M(V(F32, 2), 3), F(64), V(F(64), 2)}
Init == /\ start \in (IF Mode = "pairs" THEN Universe ELSE Small) /\ top = start /\ chain = <<>>
Do(g, t, side) ==
  LET ts == IF g = "Not" THEN <<top>> ELSE IF side = "l" THEN <<top, t>> ELSE <<t, top>>  r == GRule(g, ts, TRUE) IN
  /\ (Mode = "chains" => r.v = "ok")
  /\ top' = IF r.v = "ok" THEN Result(r) ELSE <<"Void">>
  /\ chain' = Append(chain, <<g, t, side>>) /\ start' = start
Pair == Mode = "pairs" /\ chain = <<>> /\ \E g \in Pairs, t \in Universe : Do(g, t, "l")
Invert == Mode = "pairs" /\ chain = <<>> /\ Do("Not", B, "l")
Link == Mode = "chains" /\ Len(chain) < Depth /\ \E g \in Pairs, t \in Small, side \in {"l", "r"} : Do(g, t, side)
Flip == Mode = "chains" /\ Len(chain) < Depth /\ Do("Not", B, "l")
Next == Pair \/ Invert \/ Link \/ Flip
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Asked == Mode = "pairs" /\ Len(chain) = 1
g1 == chain[1][1]
t1 == chain[1][2]
R1 == GRule(g1, IF g1 = "Not" THEN <<start>> ELSE <<start, t1>>, TRUE)
R2 == GRule(g1, <<t1, start>>, TRUE)
Op(r) == r.s[Len(r.s)][1]
Proper == Asked => R1.v \in {"ok", "no", "half"} /\ (R1.v = "ok" <=> R1.s # <<>>)
Mirror == [Less |-> "Greater", LessEqual |-> "GreaterEqual", Greater |-> "Less", GreaterEqual |-> "LessEqual", Equal |-> "Equal", NotEqual |-> "NotEqual"]
Signs == {<<173, 172>>, <<175, 174>>, <<177, 176>>, <<179, 178>>, <<135, 134>>}
Laws == Asked =>
  /\ g1 \in {"Add", "Sub", "Equal", "NotEqual", "Less", "LessEqual", "Greater", "GreaterEqual"} => R1.v = R2.v /\ (R1.v = "ok" => Op(R1) = Op(R2) /\ Dim(Result(R1)) = Dim(start))
  /\ g1 \in DOMAIN Mirror => GRule(Mirror[g1], <<t1, start>>, TRUE).v = R1.v
  /\ g1 \in DOMAIN Mirror /\ R1.v = "ok" => Result(R1) = Bools(start)
  \* with signed operands the signed form, with unsigned ones only the unsigned one
  /\ \A p \in Signs : R1.v = "ok" /\ Op(R1) = p[1] => Signed(start) \/ Signed(t1)
  /\ \A p \in Signs : R1.v = "ok" /\ Op(R1) = p[2] => Unsigned(start) /\ Unsigned(t1)
  /\ R1.v = "ok" /\ g1 = "Mul" /\ (IsFlt(start) \/ IsFlt(t1)) => R2.v = "ok" /\ Result(R2) = Result(R1) /\ (start # t1 => R2.s # R1.s)
  \* products of three are the same whichever is taken first
  /\ R1.v = "ok" /\ g1 = "Mul" => \A c \in Universe :
       LET abc == GRule("Mul", <<Result(R1), c>>, TRUE)  bc == GRule("Mul", <<t1, c>>, TRUE) IN
       abc.v = "ok" /\ bc.v = "ok" /\ Cardinality({k \in 1..3 : IsVec(<<start, t1, c>>[k])}) <= 1 => LET x == GRule("Mul", <<start, Result(bc)>>, TRUE) IN x.v = "ok" => Result(x) = Result(abc)
  /\ R1.v = "ok" /\ g1 = "Div" => Len(R1.s) = IF IsVec(start) /\ ~IsVec(t1) THEN 2 ELSE 1
Out == Emit => (/\ Asked => PrintT("S " \o ToJson(<<start, chain>>))
                /\ Mode = "chains" /\ Len(chain) = Depth => PrintT("S " \o ToJson(<<start, chain>>)))
==============================================================================
