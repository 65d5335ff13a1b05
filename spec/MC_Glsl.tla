-------------------------------- MODULE MC_Glsl --------------------------------
(* Every function with every combination of types of a universe (functions of    *)
(* three operands: of a smaller one, and all that differ in one operand), and     *)
(* chains through which a value travels there and back.                          *)
EXTENDS Glsl, Json, IOUtils
CONSTANTS Emit
VARIABLES at, req
vars == <<at, req>>
F32 == F(32)  I32 == I(32)  U32 == U(32)
Ptr(c, t) == <<"Ptr", c, t>>
Kinds == {B, F(16), F32, F(64), I(8), I(16), U(16), I32, U32, I(64), U(64)}
Universe == Kinds \cup {V(t, n) : t \in Kinds \ {I(8), U(16)}, n \in {2, 3, 4}} \cup {M(V(F32, r), c) : r, c \in {2, 3, 4}} \cup {M(V(F(64), 3), 3), M(V(F(16), 2), 2), M(V(F(64), 2), 3)}
   \cup {Ptr(1, F32), Ptr(1, V(F32, 4)), Ptr(1, F(64)), Ptr(1, V(I32, 2)), Ptr(1, M(V(F32, 2), 2)), Ptr(7, F32), Ptr(3, V(F32, 2)), Ptr(6, V(F32, 4)), Ptr(1, V(F32, 2)), <<"Struct", <<F32, F32>>>>, <<"Struct", <<F32, I32>>>>, <<"Arr", F32, 2>>, <<"Arr", F32, 3>>, <<"Sampler">>}
Small == {F32, F(64), F(16), V(F32, 2), V(F32, 3), V(F(64), 3), I32, U32, V(I32, 2), V(U32, 2), V(I32, 3), B, Ptr(1, F32), M(V(F32, 3), 3)}
Init == at \in Universe /\ req = <<>>
Ask(h, ts) == req' = <<h, ts>> /\ at' = at
Unary == req = <<>> /\ \E h \in Functions : Arity(h) = 1 /\ Ask(h, <<at>>)
Binary == req = <<>> /\ \E h \in Functions, t \in Universe : Arity(h) = 2 /\ Ask(h, <<at, t>>)
Differ == req = <<>> /\ \E h \in Functions, t \in Universe, k \in 1..3 : Arity(h) = 3 /\ Ask(h, [j \in 1..3 |-> IF j = k THEN t ELSE at])
Ternary == req = <<>> /\ at \in Small /\ \E h \in Functions, t, u \in Small : Arity(h) = 3 /\ Ask(h, <<at, t, u>>)
Next == Unary \/ Binary \/ Differ \/ Ternary
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Asked == req # <<>>
R == GlslRule(req[1], req[2])
Result(r) == r.s[1][2]
\* the numbers are those of the registry
Registry == JsonDeserialize(IOEnv.GRAMMAR).glsl
Spelled == [opASin |-> "opAsin", opACos |-> "opAcos", opATan |-> "opAtan"]
NameOf(h) == IF h \in DOMAIN Spelled THEN Spelled[h] ELSE h
ASSUME \A h \in Functions : \E k \in DOMAIN Registry : Registry[k].op = Fns[h][1] /\ NameOf(h) = "op" \o Registry[k].n /\ Registry[k].k = Arity(h)
ASSUME \A h, g \in Functions : Fns[h][1] = Fns[g][1] => h = g
\* every function but the deprecated and removed ones
ASSUME {Registry[k].op : k \in DOMAIN Registry} \ {Fns[h][1] : h \in Functions} \subseteq {35, 47, 51}
Inverse == {<<"opPackSnorm4x8", "opUnpackSnorm4x8">>, <<"opPackUnorm4x8", "opUnpackUnorm4x8">>, <<"opPackSnorm2x16", "opUnpackSnorm2x16">>, <<"opPackUnorm2x16", "opUnpackUnorm2x16">>, <<"opPackHalf2x16", "opUnpackHalf2x16">>}
Laws == Asked =>
  LET h == req[1]  ts == req[2] IN
  /\ R.v \in {"ok", "no", "may"} /\ (R.v # "no" <=> Len(R.s) = 1)
  /\ \A p \in Inverse : h = p[1] /\ R.v = "ok" => LET b == GlslRule(p[2], <<Result(R)>>) IN b.v = "ok" /\ Result(b) = ts[1]
  /\ h = "opFrexpStruct" /\ R.v = "ok" => LET b == GlslRule("opLdexp", Result(R)[2]) IN b.v = "ok" /\ Result(b) = ts[1]
  /\ h = "opModfStruct" /\ R.v = "ok" => GlslRule("opFract", <<Result(R)[2][1]>>).v = "ok" /\ Result(R)[2][1] = ts[1] /\ Result(R)[2][2] = ts[1]
  /\ h = "opMatrixInverse" /\ R.v = "ok" => Result(GlslRule(h, <<Result(R)>>)) = ts[1] /\ GlslRule("opDeterminant", ts).v = "ok"
  /\ h = "opDistance" /\ R.v = "ok" => Result(GlslRule("opLength", <<ts[1]>>)) = Result(R)
  \* minimum, maximum and clamping agree on the types
  /\ h \in {"opFMin", "opNMin", "opUMin", "opSMin"} => LET g == [opFMin |-> "opFClamp", opNMin |-> "opNClamp", opUMin |-> "opUClamp", opSMin |-> "opSClamp"][h] IN GlslRule(g, <<ts[1], ts[1], ts[2]>>).v = R.v
  /\ R.v = "ok" /\ Fns[h][2] \in {"f1", "f2", "f3", "i1", "i2", "i3"} => Result(R) = ts[1]
Out == Emit /\ Asked => PrintT("S " \o ToJson(req))
==============================================================================
