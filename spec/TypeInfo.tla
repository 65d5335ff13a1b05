------------------------------ MODULE TypeInfo -------------------------------
(* What a description of a type has to answer, computed from the value the type *)
(* is (a tagged tuple as in Types.tla), and slots that hold descriptions while   *)
(* these are built, wrapped, extended, changed, copied and moved.                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VoidT == <<"Void">>  NoneT == <<"none">>
Kind(t) == t[1]
\* ------------------------------------------------------------- composition
Subs(t) == CASE Kind(t) \in {"Vec", "Mat", "Arr", "RArr", "SImg", "Img"} -> <<t[2]>> [] Kind(t) = "Ptr" -> <<t[3]>> [] Kind(t) \in {"Struct", "Fun"} -> t[2] [] OTHER -> <<>>
RECURSIVE Base(_)
Base(t) == IF Subs(t) = <<>> THEN t ELSE Base(Subs(t)[1])
RECURSIVE Inside(_)
Inside(t) == {t} \cup UNION {Inside(Subs(t)[k]) : k \in DOMAIN Subs(t)}
OpOf(t) == CASE Kind(t) = "T" -> t[2] [] OTHER ->
  LET names == <<"Void", "Bool", "Int", "Float", "Vec", "Mat", "Img", "Sampler", "SImg", "Arr", "RArr", "Struct", "-", "Ptr", "Fun">> IN 18 + (CHOOSE k \in DOMAIN names : names[k] = Kind(t))
\* element number i (counted from 0)
Element(t, i) ==
  CASE Kind(t) = "Struct" -> IF i < Len(t[2]) THEN t[2][i + 1] ELSE NoneT
    [] Kind(t) \in {"Vec", "Mat"} -> IF i < t[3] THEN t[2] ELSE NoneT
    [] Kind(t) = "Arr" -> IF i < t[3] \/ t[3] = 0 THEN t[2] ELSE NoneT
    [] Kind(t) = "RArr" -> t[2]
    [] OTHER -> NoneT
RECURSIVE Path(_, _)
Path(t, p) == IF p = <<>> \/ t = NoneT THEN t ELSE Path(Element(t, p[1]), Tail(p))
\* ---------------------------------------------------------------- predicates
IsInt(t) == Kind(t) = "Int"
IsFloat(t) == Kind(t) = "Float"
Numeric(t) == Kind(t) \in {"Int", "Float"}
Scalar(t) == Numeric(t) \/ Kind(t) = "Bool"
Width(t) == IF Numeric(t) THEN t[2] ELSE 0
Fits(t, w) == w = 0 \/ Width(t) = w
Signed(t) == IsInt(t) /\ t[3] = 1
Unsigned(t) == IsInt(t) /\ t[3] = 0
\* -1: any sign; a sign is asked of integers only
Sgn(t, s) == s = -1 \/ (IF s = 1 THEN Signed(t) ELSE Unsigned(t))
VecLen(t, n) == Kind(t) = "Vec" /\ (n = 0 \/ t[3] = n)
VecOf(t, op, n, w, s) == VecLen(t, n) /\ OpOf(t[2]) = op /\ Fits(t[2], w) /\ Sgn(t[2], s)
ScalarOf(t, op, w, s) == OpOf(t) = op /\ Scalar(t) /\ Fits(t, w) /\ Sgn(t, s)
MatOf(t, op, c, r, w) == Kind(t) = "Mat" /\ OpOf(Base(t)) = op /\ (c = 0 \/ t[3] = c) /\ (r = 0 \/ t[2][3] = r) /\ Fits(Base(t), w)
Square(t) == Kind(t) = "Mat" /\ t[3] = t[2][3]
SameLength(t, u) == Kind(t) = "Vec" /\ Kind(u) = "Vec" /\ t[3] = u[3]
SameWidth(t, u) == Numeric(Base(t)) /\ Numeric(Base(u)) /\ Width(Base(t)) = Width(Base(u))
SoV(t, u, same) == (SameLength(t, u) \/ (Scalar(t) /\ Scalar(u))) /\ (same = 1 => Width(Base(t)) = Width(Base(u)))
\* --------------------------------------------------------------------- names
ScalarName(t) ==
  CASE Kind(t) = "Bool" -> "bool"
    [] IsInt(t) /\ t[2] \in {8, 16, 32, 64} -> (IF t[3] = 1 THEN "int" ELSE "uint") \o ToString(t[2])
    [] IsFloat(t) /\ t[2] = 16 -> "half" [] IsFloat(t) /\ t[2] = 32 -> "float" [] IsFloat(t) /\ t[2] = 64 -> "double"
    [] OTHER -> ""
\* "" stands for: no claim
Str(t) ==
  CASE Scalar(t) -> ScalarName(t)
    [] Kind(t) = "Void" -> "void"
    [] Kind(t) = "Vec" -> IF t[3] \in 2..4 /\ Scalar(t[2]) /\ ScalarName(t[2]) # "" THEN ScalarName(t[2]) \o "_" \o ToString(t[3]) ELSE ""
    [] Kind(t) = "Mat" -> IF t[3] \in 2..4 /\ Kind(t[2]) = "Vec" /\ t[2][3] \in 2..4 /\ ScalarName(t[2][2]) # "" THEN ScalarName(t[2][2]) \o "_" \o ToString(t[3]) \o "x" \o ToString(t[2][3]) ELSE ""
    [] Kind(t) = "Arr" -> "array" [] Kind(t) = "RArr" -> "runtime_array" [] Kind(t) = "Struct" -> "struct" [] Kind(t) = "Img" -> "image" [] Kind(t) = "SImg" -> "sampled_image"
    [] Kind(t) = "Sampler" -> "sampler" [] Kind(t) = "Ptr" -> "pointer" [] Kind(t) = "Fun" -> "function"
    [] Kind(t) = "T" -> (CASE t[2] = 34 -> "event" [] t[2] = 35 -> "device_event" [] t[2] = 36 -> "reserved_id" [] t[2] = 37 -> "queue" [] t[2] = 322 -> "pipe_storage" [] t[2] = 4472 -> "ray_query_khr" [] t[2] = 5341 -> "acceleration_structure_khr" [] OTHER -> "")
    [] OTHER -> ""
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
\* spelled like a declaration in C (without white space)
RECURSIVE Spell(_)
Spell(t) ==
  CASE Kind(t) = "Struct" -> "struct{" \o Join([k \in DOMAIN t[2] |-> Spell(t[2][k]) \o (IF Kind(t[2][k]) = "Struct" THEN "" ELSE ";")], "") \o "};"
    [] Kind(t) = "Fun" /\ t[2] # <<>> -> Spell(t[2][1]) \o "(" \o Join([k \in 1..(Len(t[2]) - 1) |-> Spell(t[2][k + 1])], ",") \o ")"
    [] Kind(t) = "Ptr" -> Spell(t[3]) \o "*"
    [] Kind(t) = "Arr" -> Spell(t[2]) \o "[" \o ToString(t[3]) \o "]"
    [] OTHER -> Str(t)
Spelled(t) == \A u \in Inside(t) : Str(u) # "" /\ u # <<"Fun", <<>>>>
\* -------------------------------------------------------------------- answers
\* no claim
Free(h, t) == CASE h \in {"isAggregate", "isComposite"} -> Kind(t) = "RArr" [] h = "string" -> Str(t) = "" [] h = "name" -> ~Spelled(t) [] OTHER -> FALSE
\* what query h with arguments a about t (and u) yields
Answer(h, a, t, u) ==
  CASE h = "isVoid" -> Kind(t) = "Void" [] h = "isBool" -> Kind(t) = "Bool" [] h = "isStruct" -> Kind(t) = "Struct" [] h = "isArray" -> Kind(t) = "Arr" [] h = "isRuntimeArray" -> Kind(t) = "RArr" [] h = "isImage" -> Kind(t) = "Img"
    [] h = "isSampler" -> Kind(t) = "Sampler" [] h = "isSampledImage" -> Kind(t) = "SImg" [] h = "isVector" -> Kind(t) = "Vec" [] h = "isMatrix" -> Kind(t) = "Mat" [] h = "isFunction" -> Kind(t) = "Fun"
    [] h = "isPointer" -> Kind(t) = "Ptr" /\ (a = <<>> \/ t[2] = a[1])
    [] h = "isOp" -> OpOf(t) = a[1] [] h = "isNotOp" -> OpOf(t) # a[1]
    [] h = "isInt" -> IsInt(t) /\ (a = <<>> \/ Fits(t, a[1])) /\ (Len(a) < 2 \/ Sgn(t, a[2]))
    [] h = "isUInt" -> Unsigned(t) /\ (a = <<>> \/ Fits(t, a[1])) [] h = "isSInt" -> Signed(t) /\ (a = <<>> \/ Fits(t, a[1]))
    [] h = "isFloat" -> IsFloat(t) /\ (a = <<>> \/ Fits(t, a[1]))
    [] h = "isNumerical" -> Numeric(t) [] h = "isScalar" -> Scalar(t)
    [] h = "isAggregate" -> Kind(t) \in {"Struct", "Arr"}
    [] h = "isComposite" -> Kind(t) \in {"Struct", "Arr", "Vec", "Mat"}
    [] h = "isSigned" -> Signed(Base(t)) [] h = "isUnsigned" -> Unsigned(Base(t)) [] h = "any" -> TRUE
    [] h = "isVectorOf" -> VecOf(t, a[1], a[2], a[3], a[4])
    [] h = "isVectorOfLength" -> VecLen(t, a[1]) /\ Fits(t[2], a[2])
    [] h = "isScalarOrVectorOf" -> ScalarOf(t, a[1], a[3], a[4]) \/ VecOf(t, a[1], a[2], a[3], a[4])
    [] h = "isNumericalScalarOrVector" -> (Numeric(t) /\ Fits(t, a[2])) \/ (VecLen(t, a[1]) /\ Numeric(t[2]) /\ Fits(t[2], a[2]))
    [] h = "isMatrixOf" -> MatOf(t, a[1], a[2], a[3], a[4])
    [] h = "isSquare" -> Square(t) [] h = "isSquareOf" -> Square(t) /\ OpOf(Base(t)) = a[1]
    [] h = "isBaseTypeOf" -> OpOf(Base(t)) = a[1]
    [] h = "contains" -> \E x \in Inside(t) : OpOf(x) = a[1]
    [] h = "length" -> IF Scalar(t) THEN 1 ELSE IF Kind(t) = "Vec" THEN t[3] ELSE 0
    [] h = "rows" -> IF Kind(t) = "Mat" THEN t[2][3] ELSE 0
    [] h = "op" -> OpOf(t) [] h = "baseop" -> OpOf(Base(t)) [] h = "base" -> Base(t)
    [] h = "string" -> Str(t)
    [] h = "name" -> Spell(t)
    [] h = "element" -> Path(t, a)
    [] h = "sameBase" -> Base(t) = Base(u) [] h = "sameBaseOp" -> OpOf(Base(t)) = OpOf(Base(u))
    [] h = "containsType" -> u \in Inside(t)
    [] h = "sameLength" -> SameLength(t, u) [] h = "sameLengthOf" -> SameLength(t, u) /\ OpOf(t[2]) = a[1] /\ OpOf(u[2]) = a[1]
    [] h = "sov" -> SoV(t, u, a[1])
    [] h = "sovOf" -> SoV(t, u, a[2]) /\ (IF Kind(t) = "Vec" THEN OpOf(t[2]) = a[1] /\ OpOf(u[2]) = a[1] ELSE OpOf(t) = a[1] /\ OpOf(u) = a[1])
    [] h = "sameWidth" -> SameWidth(t, u)
    [] h = "equal" -> t = u [] h = "differ" -> t # u
\* ------------------------------------------------------------- image formats
\* <<channels, "f"|"n"|"i"|"u", bits>> by number; packed formats and unknown: <<>>
Formats == <<<<4, "f", 32>>, <<4, "f", 16>>, <<1, "f", 32>>, <<4, "n", 8>>, <<4, "n", 8>>, <<2, "f", 32>>, <<2, "f", 16>>, <<>>, <<1, "f", 16>>, <<4, "n", 16>>, <<>>, <<2, "n", 16>>, <<2, "n", 8>>, <<1, "n", 16>>, <<1, "n", 8>>,
             <<4, "n", 16>>, <<2, "n", 16>>, <<2, "n", 8>>, <<1, "n", 16>>, <<1, "n", 8>>, <<4, "i", 32>>, <<4, "i", 16>>, <<4, "i", 8>>, <<1, "i", 32>>, <<2, "i", 32>>, <<2, "i", 16>>, <<2, "i", 8>>, <<1, "i", 16>>, <<1, "i", 8>>,
             <<4, "u", 32>>, <<4, "u", 16>>, <<4, "u", 8>>, <<1, "u", 32>>, <<>>, <<2, "u", 32>>, <<2, "u", 16>>, <<2, "u", 8>>, <<1, "u", 16>>, <<1, "u", 8>>, <<1, "u", 64>>, <<1, "i", 64>>>>
Unorm == {4, 10, 12, 13, 14, 15}
Channels(t, n) == IF n = 1 THEN t ELSE <<"Vec", t, n>>
\* the types format f may stand for
OfFormat(f, norm) ==
  IF f = 0 \/ Formats[f] = <<>> THEN {VoidT} ELSE
  LET x == Formats[f] IN
  CASE x[2] = "f" -> {Channels(<<"Float", x[3]>>, x[1])} [] x[2] = "i" -> {Channels(<<"Int", x[3], 1>>, x[1])} [] x[2] = "u" -> {Channels(<<"Int", x[3], 0>>, x[1])}
    [] x[2] = "n" -> IF norm = 1 THEN {Channels(<<"Float", x[3]>>, x[1])} ELSE {Channels(<<"Int", x[3], s>>, x[1]) : s \in IF f \in Unorm THEN {0, 1} ELSE {1}}
\* channels of a format and coordinates that address a texel of one layer
ChannelsOf(f) == IF f \notin DOMAIN Formats THEN 0 ELSE IF Formats[f] # <<>> THEN Formats[f][1] ELSE IF f = 8 THEN 3 ELSE 4
CoordinatesOf(dim) == CASE dim \in {0, 5} -> 1 [] dim \in {1, 3, 4, 6} -> 2 [] dim = 2 -> 3 [] OTHER -> 0
\* ---------------------------------------------------------------------- steps
Wrapped(w, t, k) == CASE w = "Ptr" -> <<"Ptr", k, t>> [] w \in {"Arr", "Vec", "Mat"} -> <<w, t, k>> [] w = "RArr" -> <<"RArr", t>> [] w \in {"Struct", "Fun"} -> <<w, <<t>>>>
Prop(t, p, v) ==
  CASE p = "width" -> [t EXCEPT ![2] = v]
    [] p = "sign" -> IF Kind(t) = "Vec" THEN [t EXCEPT ![2][3] = v] ELSE [t EXCEPT ![3] = v]
    [] p \in {"count", "columns", "len"} -> [t EXCEPT ![3] = v]
    [] p = "rows" -> [t EXCEPT ![2][3] = v]
    [] p = "storage" -> [t EXCEPT ![2] = v]
    [] p = "dim" -> [t EXCEPT ![3] = v] [] p = "depth" -> [t EXCEPT ![4] = v] [] p = "array" -> [t EXCEPT ![5] = v] [] p = "ms" -> [t EXCEPT ![6] = v] [] p = "sampled" -> [t EXCEPT ![7] = v] [] p = "format" -> [t EXCEPT ![8] = v] [] p = "access" -> [t EXCEPT ![9] = v]
\* contents of the slots after op; made: the type a format was turned into
Step(S, op, made) ==
  LET i == op[2] IN
  CASE op[1] = "set" -> [S EXCEPT ![i] = op[3]]
    [] op[1] = "copy" -> [S EXCEPT ![i] = S[op[3]]]
    [] op[1] = "move" -> IF op[3] = i THEN S ELSE [S EXCEPT ![i] = S[op[3]], ![op[3]] = VoidT]
    [] op[1] = "wrap" -> [S EXCEPT ![i] = Wrapped(op[4], S[op[3]], op[5])]
    [] op[1] = "member" -> [S EXCEPT ![i] = <<S[i][1], Append(S[i][2], S[op[3]])>>]
    [] op[1] = "front" -> [S EXCEPT ![i] = Subs(S[i])[1]]
    [] op[1] = "back" -> [S EXCEPT ![i] = Subs(S[i])[Len(Subs(S[i]))]]
    [] op[1] = "reset" -> [S EXCEPT ![i] = VoidT]
    [] op[1] = "fmt" -> [S EXCEPT ![i] = made]
    [] op[1] = "prop" -> [S EXCEPT ![i] = Prop(S[i], op[3], op[4])]
===============================================================================
