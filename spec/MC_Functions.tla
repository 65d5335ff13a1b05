---------------------------- MODULE MC_Functions ------------------------------
(* Construction steps in any order; a module that holds exactly what they say   *)
(* is accepted, and no disturbed version of it.                                 *)
EXTENDS FunDecls, Json, SequencesExt
CONSTANTS Depth
VARIABLES F, hist
F32 == <<"Float", 32>>  I32 == <<"Int", 32, 1>>
Ts == {Void, F32, I32}
Nm == {Unnamed, <<97>>}
Steps ==
  {<<"fun", e>> : e \in {0, 1}}
  \cup {<<"full", t, p, c, <<97, 98, 99, 100>>, m, b>> : t \in {Void, F32}, p \in {<<>>, <<F32, I32>>}, c \in {2}, m \in {-1, 4}, b \in {0, 1}}
  \cup {<<"ret", f, t>> : f \in {1, 2}, t \in Ts} \cup {<<"param", f, t>> : f \in {1, 2}, t \in Ts}
  \cup {<<"type", f, t>> : f \in {1, 2}, t \in {<<"Fun", <<F32>>>>, <<"Fun", <<Void, F32>>>>, <<"Fun", <<I32, I32>>>>, <<"Fun", <<Void, F32, I32>>>>, F32}}
  \cup {<<"fin", f, c, nm, 5>> : f \in {1, 2}, c \in {1}, nm \in {<<97>>, <<>>}}
  \cup {<<"block", f>> : f \in {1, 2}} \cup {<<"var", f, t, i>> : f \in {1, 2}, t \in Ts \ {Void}, i \in {0, 1}}
  \cup {<<"call", f, 1, g>> : f, g \in {1, 2}} \cup {<<"badcall", f, 1, k>> : f \in {1, 2}, k \in {0, 1}}
  \cup {<<"retv", f, 1, t>> : f \in {1, 2}, t \in Ts} \cup {<<"mode", f, 17, <<k, 1, 1>>>> : f \in {1, 2}, k \in {1}}
Init == F = <<>> /\ hist = <<>>
\* the model's own answers: numbers
Ans(s) == [node |-> 900 + Len(hist), init |-> IF s[1] = "var" /\ s[4] = 1 THEN 800 + Len(hist) ELSE 0, args |-> CASE s[1] = "call" -> <<100 * s[4]>> \o [k \in DOMAIN F[s[4]].ps |-> 700 + k] [] s[1] = "retv" -> <<701>> [] OTHER -> <<>>]
Do(s) == Enabled(F, s) /\ F' = Effect(F, s, Ans(s)) /\ hist' = Append(hist, s)
Next == Len(hist) < Depth /\ \E s \in Steps : Do(s)
Spec == Init /\ [][Next]_<<F, hist>>
------------------------------------------------------------------------------
TypesOf(f) == {SigOf(f), f.ret} \cup Range(f.ps) \cup {<<"Ptr", 7, v[2]>> : v \in f.vars} \cup {f.blocks[b][k][3] : b \in DOMAIN f.blocks, k \in {j \in 1..5 : \A x \in DOMAIN f.blocks : j <= Len(f.blocks[x])}}
AllT == SetToSeq({Void, F32, I32} \cup UNION {TypesOf(F[k]) : k \in DOMAIN F})
R(D, t) == IRef(CHOOSE k \in DOMAIN D : D[k] = t)
Id == <<"d", 0>>
Obs(D, k) == LET f == F[k] IN
  [fn |-> <<100 * k, 54, <<R(D, f.ret), Id, Lit16(f.ctrl), R(D, SigOf(f))>>>>, ps |-> [p \in DOMAIN f.ps |-> <<100 * k + p, 55, <<R(D, f.ps[p]), Id>>>>],
   bbs |-> [b \in DOMAIN f.blocks |-> [lab |-> <<100 * k + 50 + b, 248, <<Id>>>>,
      ins |-> (IF b = 1 THEN SetToSeq({<<v[1], 59, <<R(D, <<"Ptr", 7, v[2]>>), Id, Lit16(7)>> \o (IF v[3] = 0 THEN <<>> ELSE <<IRef(v[3])>>)>> : v \in f.vars}) ELSE <<>>)
           \o [j \in DOMAIN f.blocks[b] |-> LET w == f.blocks[b][j] IN <<w[2], w[1], CASE w[1] = 57 -> <<R(D, w[3]), Id>> \o [x \in DOMAIN w[4] |-> IRef(w[4][x])] [] w[1] = 253 -> <<>> [] w[1] = 254 -> <<IRef(w[4][1])>>>>]]],
   end |-> <<100 * k + 99, 56, <<>>>>, ep |-> IF f.model = -1 THEN <<>> ELSE <<100 * k + 98>>]
Ok(D, o, f, fn) == HeadOk(D, o, f, fn) /\ ParamsOk(D, o, f) /\ BodyOk(D, o, f)
Accepted == LET D == AllT IN \A k \in DOMAIN F : F[k].fin => Ok(D, Obs(D, k), F[k], 100 * k)
Other(D, t) == CHOOSE x \in DOMAIN D : D[x] # t
Sharp == LET D == AllT IN \A k \in DOMAIN F : F[k].fin =>
  LET o == Obs(D, k)  f == F[k]  bad(x) == ~Ok(D, x, f, 100 * k) IN
  /\ bad([o EXCEPT !.fn[3][1] = IRef(Other(D, f.ret))]) /\ bad([o EXCEPT !.fn[3][3] = Lit16(f.ctrl + 4)]) /\ bad([o EXCEPT !.fn[3][4] = IRef(Other(D, SigOf(f)))])
  /\ \A p \in DOMAIN o.ps : bad([o EXCEPT !.ps = SubSeq(o.ps, 1, p - 1) \o SubSeq(o.ps, p + 1, Len(o.ps))]) /\ bad([o EXCEPT !.ps[p][3][1] = IRef(Other(D, f.ps[p]))])
  /\ \A b \in DOMAIN o.bbs : bad([o EXCEPT !.bbs = SubSeq(@, 1, b - 1) \o SubSeq(@, b + 1, Len(@))]) \/ (Len(o.bbs) > 1 /\ o.bbs[b].ins = <<>>)
  /\ \A b \in DOMAIN o.bbs : \A i \in DOMAIN o.bbs[b].ins : bad([o EXCEPT !.bbs[b].ins = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))])
OneSig == LET D == AllT IN \A a, b \in DOMAIN F : SigOf(F[a]) = SigOf(F[b]) => R(D, SigOf(F[a])) = R(D, SigOf(F[b]))
Out == Len(hist) = Depth => PrintT("S " \o ToJson(hist))
=============================================================================
