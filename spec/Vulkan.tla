-------------------------------- MODULE Vulkan --------------------------------
(* What a Vulkan pipeline layout calls the variables of a module (the table      *)
(* "shader resource and descriptor type correspondence" of the Vulkan            *)
(* specification) and its entry points' execution models.                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Kind(t) == t[1]
RECURSIVE Peel(_)
Peel(t) == IF Kind(t) \in {"Arr", "RArr"} THEN Peel(t[2]) ELSE t
UniformConstant == 0  Uniform == 2  StorageBuffer == 12
Sampler == 0  Combined == 1  SampledImage == 2  StorageImage == 3  UniformTexel == 4  StorageTexel == 5  UniformBuf == 6  StorageBuf == 7  Attachment == 10  Acceleration == 1000150000
None == 2147483647
\* no claim
Free == -1
Opaque(t) == Kind(t) \in {"Sampler", "SImg", "Img"} \/ t = <<"T", 5341>>
Buffer == 5  Subpass == 6
\* an image that can be combined with a sampler; dimension and access are t[3], t[7]
Plain(t) == (Kind(t) = "Img" /\ t[3] \notin {Buffer, Subpass} /\ t[7] = 1) \/ (Kind(t) = "SImg" /\ t[2][3] \notin {Buffer, Subpass})
Odd(t) == Kind(t) \in {"Img", "SImg"} /\ ~Plain(t)
\* v: a variable [sc, t, set, bind]
Shares(v, w) == v.set # -1 /\ v.bind # -1 /\ v.set = w.set /\ v.bind = w.bind /\ v.sc = UniformConstant /\ w.sc = UniformConstant
\* variable number i of vars, where buf holds the structures that are decorated BufferBlock
Descriptor(vars, buf, i) ==
  LET v == vars[i]  t == Peel(v.t)  Others == {Peel(vars[j].t) : j \in {j \in DOMAIN vars : j # i /\ Shares(v, vars[j])}} IN
  CASE v.sc # UniformConstant /\ Opaque(t) -> Free
    [] Kind(t) = "Sampler" -> IF \E u \in Others : Plain(u) THEN Combined ELSE IF \E u \in Others : Odd(u) THEN Free ELSE Sampler
    [] Kind(t) = "SImg" -> IF Plain(t) THEN Combined ELSE Free
    [] Kind(t) = "Img" ->
       IF <<"Sampler">> \in Others THEN IF Plain(t) THEN Combined ELSE Free
       ELSE IF t[3] = Buffer THEN (CASE t[7] = 1 -> UniformTexel [] t[7] = 2 -> StorageTexel [] OTHER -> None)
       ELSE IF t[3] = Subpass THEN (IF t[7] = 2 THEN Attachment ELSE Free)
       ELSE (CASE t[7] = 1 -> SampledImage [] t[7] = 2 -> StorageImage [] OTHER -> None)
    [] t = <<"T", 5341>> -> Acceleration
    [] Kind(t) = "Struct" -> IF v.sc = Uniform THEN (IF t \in buf THEN StorageBuf ELSE UniformBuf) ELSE IF v.sc = StorageBuffer THEN StorageBuf ELSE IF v.sc = UniformConstant THEN Free ELSE None
    [] OTHER -> IF v.sc \in {Uniform, StorageBuffer, UniformConstant} THEN Free ELSE None
\* execution models with a stage of their own: <<model, stage>>
Stages == {<<0, 1>>, <<1, 2>>, <<2, 4>>, <<3, 8>>, <<4, 16>>, <<5, 32>>, <<6, None>>, <<5267, 64>>, <<5268, 128>>, <<5313, 256>>, <<5314, 4096>>, <<5315, 512>>, <<5316, 1024>>, <<5317, 2048>>, <<5318, 8192>>}
\* steps
Step(s, op) ==
  CASE op[1] = "var" -> [s EXCEPT !.vars = Append(@, [sc |-> op[2], t |-> op[3], set |-> -1, bind |-> -1])]
    [] op[1] = "set" -> [s EXCEPT !.vars[op[2]].set = op[3]]
    [] op[1] = "bind" -> [s EXCEPT !.vars[op[2]].bind = op[3]]
    [] op[1] = "buf" -> [s EXCEPT !.buf = @ \cup {op[2]}]
    [] OTHER -> s
Start == [vars |-> <<>>, buf |-> {}]
===============================================================================
