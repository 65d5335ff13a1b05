----------------------------- MODULE MC_TypeInfo ------------------------------
(* All short histories of two descriptions; the answers agree with each other.   *)
EXTENDS TypeInfo, Json
CONSTANTS Steps, Emit
VARIABLES S, hist
vars == <<S, hist>>
F32 == <<"Float", 32>>  I32 == <<"Int", 32, 1>>  U16 == <<"Int", 16, 0>>
Img == <<"Img", F32, 1, 0, 0, 0, 1, 0, -1>>
Seeds == {F32, I32, <<"Bool">>, <<"Vec", F32, 3>>, <<"Vec", I32, 2>>, <<"Struct", <<>>>>, Img}
Do(op, made) == Len(hist) < Steps /\ S' = Step(S, op, made) /\ hist' = Append(hist, op)
No == <<"none">>
More == Len(hist) < Steps
Init == S = <<VoidT, VoidT>> /\ hist = <<>>
Set == More /\ \E i \in 1..2, t \in Seeds : Do(<<"set", i, t>>, No)
Copy == More /\ \E i, j \in 1..2 : Do(<<"copy", i, j>>, No)
Move == More /\ \E i, j \in 1..2 : Do(<<"move", i, j>>, No)
Wrap == More /\ \E i, j \in 1..2 : \/ \E w \in {"RArr", "Struct", "Fun"} : Do(<<"wrap", i, j, w, 0>>, No)
                                   \/ \E k \in {1, 7} : Do(<<"wrap", i, j, "Ptr", k>>, No)
                                   \/ Do(<<"wrap", i, j, "Arr", 3>>, No)
                                   \/ (Scalar(S[j]) /\ Do(<<"wrap", i, j, "Vec", 2>>, No))
                                   \/ (Kind(S[j]) = "Vec" /\ IsFloat(S[j][2]) /\ Do(<<"wrap", i, j, "Mat", 2>>, No))
Member == More /\ \E i, j \in 1..2 : Kind(S[i]) \in {"Struct", "Fun"} /\ Do(<<"member", i, j>>, No)
Take == More /\ \E i \in 1..2 : Subs(S[i]) # <<>> /\ (Do(<<"front", i>>, No) \/ Do(<<"back", i>>, No))
Reset == More /\ \E i \in 1..2 : Do(<<"reset", i>>, No)
Fmt == More /\ \E f \in {0, 4, 40}, m \in {0, 1} : \E t \in OfFormat(f, m) : Do(<<"fmt", 1, f, m>>, t)
Change == More /\ \E i \in 1..2 : \/ (Numeric(S[i]) /\ Do(<<"prop", i, "width", 64>>, No)) \/ (IsInt(S[i]) /\ Do(<<"prop", i, "sign", 0>>, No)) \/ (Kind(S[i]) = "Vec" /\ Do(<<"prop", i, "count", 4>>, No))
                                  \/ (Kind(S[i]) = "Mat" /\ (Do(<<"prop", i, "columns", 3>>, No) \/ Do(<<"prop", i, "rows", 4>>, No))) \/ (Kind(S[i]) = "Arr" /\ Do(<<"prop", i, "len", 5>>, No)) \/ (Kind(S[i]) = "Ptr" /\ Do(<<"prop", i, "storage", 2>>, No))
                                  \/ (Kind(S[i]) = "Img" /\ \E p \in {"dim", "format"} : Do(<<"prop", i, p, 1>>, No))
Next == Set \/ Copy \/ Move \/ Wrap \/ Member \/ Take \/ Reset \/ Fmt \/ Change
Spec == Init /\ [][Next]_vars
A(h, a) == Answer(h, a, S[1], S[2])
Swap(h, a) == Answer(h, a, S[2], S[1])
Ops3 == {20, 21, 22}
\* laws that tie the answers together
Laws ==
  /\ \A h \in {"sameBase", "sameBaseOp", "sameLength", "sameWidth", "equal"} : A(h, <<>>) = Swap(h, <<>>)
  /\ \A s \in {0, 1} : A("sov", <<s>>) = Swap("sov", <<s>>)
  /\ A("equal", <<>>) # A("differ", <<>>)
  /\ (A("equal", <<>>) => A("containsType", <<>>) /\ A("sameBase", <<>>))
  /\ (A("containsType", <<>>) /\ Swap("containsType", <<>>)) => A("equal", <<>>)
  /\ A("isScalar", <<>>) = (A("isNumerical", <<>>) \/ A("isBool", <<>>))
  /\ A("isInt", <<>>) = (A("isUInt", <<>>) \/ A("isSInt", <<>>))
  /\ ~(A("isSigned", <<>>) /\ A("isUnsigned", <<>>))
  /\ A("isVector", <<>>) = (\E o \in Ops3 : A("isVectorOf", <<o, 0, 0, -1>>))
  /\ A("isVector", <<>>) = (\E n \in 2..4 : A("isVectorOfLength", <<n, 0>>))
  /\ \A o \in Ops3 : A("isScalarOrVectorOf", <<o, 0, 0, -1>>) = ((A("isScalar", <<>>) /\ A("isOp", <<o>>)) \/ A("isVectorOf", <<o, 0, 0, -1>>))
  /\ A("isVectorOf", <<21, 0, 0, -1>>) = (A("isVectorOf", <<21, 0, 0, 0>>) \/ A("isVectorOf", <<21, 0, 0, 1>>))
  /\ A("isMatrix", <<>>) = (\E o \in Ops3 : A("isMatrixOf", <<o, 0, 0, 0>>))
  /\ (A("isSquare", <<>>) => A("isMatrix", <<>>) /\ \E n \in 2..4 : A("isMatrixOf", <<22, n, n, 0>>))
  /\ \A o \in Ops3 : (A("isBaseTypeOf", <<o>>) => A("contains", <<o>>))
  /\ (A("sov", <<1>>) => A("sov", <<0>>))
  /\ \A o \in Ops3, s \in {0, 1} : (A("sovOf", <<o, s>>) => A("sov", <<s>>))
  /\ \A i \in 0..3 : LET x == A("element", <<i>>) IN x # NoneT => x \in Inside(S[1]) \ {S[1]}
  /\ \A i, j \in 0..2 : LET x == A("element", <<i>>) IN A("element", <<i, j>>) = IF x = NoneT THEN NoneT ELSE Element(x, j)
\* spelling tells types apart as far as it can (storage classes, image properties and what is behind a runtime array are not spelled)
Blind(t) == \A u \in Inside(t) : Kind(u) \notin {"Ptr", "Img", "SImg", "RArr"}
Spells == (Spelled(S[1]) /\ Spelled(S[2]) /\ Blind(S[1]) /\ Blind(S[2]) /\ S[1] # S[2]) => Spell(S[1]) # Spell(S[2])
Out == (Emit /\ Len(hist) = Steps) => PrintT("S " \o ToJson(hist))
===============================================================================
