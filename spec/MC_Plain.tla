------------------------------- MODULE MC_Plain -------------------------------
(* Requests of every kind; what they make is checked against the registry: the   *)
(* words are an instruction of the grammar, nothing is missing, nothing left.     *)
EXTENDS Plain, Json
CONSTANTS Emit
VARIABLE req
X(h, a) == \E ver \in (IF h \in {"opCopyMemory", "opCopyMemorySized"} THEN {13, 14, 15} ELSE {14}), free \in (IF h = "opReturnValue" THEN BOOLEAN ELSE {FALSE}) :
             req' = [h |-> h, a |-> a, ver |-> ver, free |-> free]
Ask(h, a) == req = <<>> /\ X(h, a)
Init == req = <<>>
Strings == {<<S, <<>>>> : S \in {"s"}} \cup {<<"s", b>> : b \in {<<97>>, <<109, 97, 105, 110>>, <<97, 98, 99>>, <<97, 98, 99, 100, 101, 102, 103>>, <<200, 1, 255, 128, 34, 92, 37, 115>>, <<71, 76, 83, 76, 46, 115, 116, 100, 46, 52, 53, 48>>}}
Str1 == {<<"s", <<97, 98, 99>>>>, <<"s", <<109, 97, 105, 110>>>>, <<"s", <<>>>>}
Words == {<<"l", 0, 0>>, <<"l", 0, 7>>, <<"l", 65535, 65535>>, <<"l", 18, 13398>>}
\* enumerants of a kind, and arguments for the parameters that follow one
Of(k) == {Vals(k)[i].v : i \in DOMAIN Vals(k)}
Arg(k, i) ==
  CASE k = LitString -> <<"s", <<97, 98, 99, 97 + i>>>>
    [] CatOf(k) = 2 -> N(IF i % 2 = 1 THEN "ku" ELSE "su")
    [] CatOf(k) \in {0, 1} -> LET P == {v \in DOMAIN Vals(k) : Vals(k)[v].p = <<>>} IN LET e == Vals(k)[CHOOSE v \in P : \A u \in P : u <= v].v IN <<"l", e[1], e[2]>>
    [] OTHER -> <<"l", i, 1000 + i>>
ArgsOf(k, v) == LET p == Params(k, v) IN [i \in DOMAIN p |-> Arg(p[i], i)]
Enum(v) == <<"l", v[1], v[2]>>
Literal(k, v) == \A i \in DOMAIN Params(k, v) : CatOf(Params(k, v)[i]) # 2
Ids(k, v) == Params(k, v) # <<>> /\ \A i \in DOMAIN Params(k, v) : CatOf(Params(k, v)[i]) = 2
KindAt(op, i) == Op(op).o[i][1]
DecKind == KindAt(71, 2)  ModeKind == KindAt(16, 2)  LoopKind == KindAt(246, 3)
Some2 == {"vf", "fn", "ts", "pf", "kf", "tf", "imp", "B1", "par", "str"}
Target(x) == IF x = "B1" THEN <<"b", x>> ELSE N(x)
Bare == req = <<>> /\ (
  \/ \E h \in {"opNop", "opNoLine", "opFunctionEnd", "opEmitVertex", "opEndPrimitive", "opLabel", "opKill", "opReturn", "opUnreachable"} : Ask(h, <<>>)
  \/ \E x \in Types \cup {"vf", "fn", "nores", "ku", "str"}, h \in {"opUndef", "opFunctionParameter"} : Ask(h, <<N(x)>>)
  \/ \E x \in Values, h \in {"opSizeOf", "opCopyObject", "opReturnValue", "opEmitStreamVertex", "opEndStreamPrimitive"} : Ask(h, <<N(x)>>))
Debug == req = <<>> /\ (
  \/ \E s \in Strings, h \in {"opSourceContinued", "opSourceExtension", "opString", "opExtension", "opExtInstImport"} : Ask(h, <<s>>)
  \/ \E v \in Of(KindAt(3, 1)), l \in Words, n \in 0..2, s \in Str1 : Ask("opSource", <<Enum(v), l>> \o (CASE n = 0 -> <<>> [] n = 1 -> <<N("str")>> [] n = 2 -> <<N("str"), s>>))
  \/ \E x \in {"vf", "fn", "ts", "nores", "ku", "par", "imp", "pf"}, s \in Strings : Ask("opName", <<N(x), s>>)
  \/ \E x \in {"ts", "tf", "vf", "ta", "ps"}, l \in Words, s \in Strings : Ask("opMemberName", <<N(x), l, s>>)
  \/ \E x \in {"str", "imp", "vf", "nores"}, l, c \in Words : Ask("opLine", <<N(x), l, c>>)
  \/ \E s \in Strings, l \in Words : Ask("opLine", <<s, l, <<"l", 0, 3>>>>))
Annotate == req = <<>> /\ (
  \/ \E v \in Of(DecKind), x \in {"vf", "ts", "pf"} : Literal(DecKind, v) /\ Ask("opDecorate", <<N(x), Enum(v)>> \o ArgsOf(DecKind, v))
  \/ \E v \in Of(DecKind), l \in Words : Literal(DecKind, v) /\ Ask("opMemberDecorate", <<N("ts"), l, Enum(v)>> \o ArgsOf(DecKind, v))
  \/ \E v \in Of(DecKind), x \in {"vf", "ts", "pf"} : Ids(DecKind, v) /\ Ask("opDecorateId", <<N(x), Enum(v)>> \o ArgsOf(DecKind, v)))
Modes == req = <<>> /\ (
  \/ \E v \in Of(ModeKind), f \in {"fn", "fnf"} : Literal(ModeKind, v) /\ Ask("opExecutionMode", <<N(f), Enum(v)>> \o ArgsOf(ModeKind, v))
  \/ \E v \in Of(ModeKind), f \in {"fn", "fnf"} : Ids(ModeKind, v) /\ Ask("opExecutionModeId", <<N(f), Enum(v)>> \o ArgsOf(ModeKind, v))
  \/ \E x, y, z \in {"ku", "vf", "su", "par"} : Ask("opExecutionModeId", <<N("fn"), <<"l", 0, 38>>, N(x), N(y), N(z)>>)
  \/ \E x \in Values : Ask("opExecutionModeId", <<N("fn"), <<"l", 0, 37>>, N(x)>>)
  \/ \E v \in Of(KindAt(17, 1)) : Ask("opCapability", <<Enum(v)>>)
  \/ \E v \in Of(KindAt(14, 1)), u \in Of(KindAt(14, 2)) : Ask("opMemoryModel", <<Enum(v), Enum(u)>>)
  \/ \E v \in Of(KindAt(15, 1)), s \in Strings : Ask("opEntryPoint", <<Enum(v), N("fn"), s>>)
  \/ \E s \in Strings, n \in 1..3 : Ask("opEntryPoint", <<Enum(<<0, 4>>), N("fnf"), s>> \o SubSeq(<<N("pf"), N("ps"), N("pi")>>, 1, n)))
Functions == req = <<>> /\ (
  \/ \E l \in {<<"l", 0, 0>>, <<"l", 0, 1>>, <<"l", 0, 12>>}, t \in {"tv", "tf", "vf", "fn"}, f \in {"tg", "tgf", "tf", "fn", "nores"} : Ask("opFunction", <<l, N(t), N(f)>>)
  \/ \E h \in {"opFunctionCall", "opFunctionCallDynamic"}, t \in {"tv", "vf", "fn"}, f \in {"fn", "tg", "vf"} : Ask(h, <<N(t), N(f)>>)
  \/ \E h \in {"opFunctionCall", "opFunctionCallDynamic"}, x \in {"vf", "par", "kf", "vf3"} : Ask(h, <<N("tf"), N("fnf"), N(x)>>)
  \/ \E h \in {"call", "callDynamic"} : Ask(h, <<N("fn")>>)
  \/ \E h \in {"call", "callDynamic"}, x \in {"vf", "par", "kf", "vf3"} : Ask(h, <<N("fnf"), N(x)>>)
  \/ \E x \in {"none", "kf"} : Ask("opVariable", <<N("tpf"), <<"l", 0, 7>>>> \o (IF x = "none" THEN <<>> ELSE <<N(x)>>))
  \/ \E t \in {"tpi", "tps"} : Ask("opVariable", <<N(t), <<"l", 0, 7>>>>)
  \/ \E o \in {128, 130, 169, 82}, n \in 1..3 : Ask("opSpecConstantOp", <<N("tu"), <<"l", 0, o>>>> \o SubSeq(<<N("su"), N("ku"), N("ku2")>>, 1, n))
  \/ \E l \in Words, n \in 0..3 : Ask("opExtInst", <<N("tf"), N("imp"), l>> \o SubSeq(<<N("vf"), N("par"), N("kf")>>, 1, n))
  \/ \E s \in Strings, l \in Words, n \in 0..2 : Ask("opExtInst", <<N("tf"), s, l>> \o SubSeq(<<N("vf"), N("kf")>>, 1, n)))
Pairs == {<<x, y>> : x, y \in {"vf", "vf2", "vf3", "vi", "vi2", "vu", "par"}}
Proper(a) == \A k \in DOMAIN a : a[k][2] \in DOMAIN HomeOf /\ ValueType[a[k][2]] = ValueType[a[1][2]]
Phi(h, a) == (h = "opPhi" => Proper(a)) /\ Ask(h, a)
Flow == req = <<>> /\ (
  \/ \E b, c \in Blocks, v \in Of(LoopKind) : Ask("opLoopMerge", <<<<"b", b>>, <<"b", c>>, Enum(v)>> \o ArgsOf(LoopKind, v))
  \/ Ask("opLoopMerge", <<<<"b", "B1">>, <<"b", "B2">>, <<"l", 0, 48>>, <<"l", 0, 2>>, <<"l", 0, 9>>>>)
  \/ \E b \in Blocks, v \in {<<0, 0>>, <<0, 1>>, <<0, 2>>} : Ask("opSelectionMerge", <<<<"b", b>>, Enum(v)>>)
  \/ \E b \in Blocks : Ask("opBranch", <<<<"b", b>>>>)
  \/ \E b, c \in Blocks : Ask("opBranchConditional", <<N("vb"), <<"b", b>>, <<"b", c>>>>)
  \/ \E b, c \in Blocks, l, k \in Words : Ask("opBranchConditional", <<N("vb"), <<"b", b>>, <<"b", c>>, l, k>>)
  \/ \E h \in {"opPhi", "opPhiDynamic"}, p \in Pairs : Phi(h, <<N(p[1]), N(p[2])>>)
  \/ \E h \in {"opPhi", "opPhiDynamic"}, p \in Pairs, x \in {"vf", "vf3", "vi", "par"} : Phi(h, <<N(p[1]), N(p[2]), N(x)>>)
  \/ \E h \in {"opPhi", "opPhiDynamic"}, x \in {"vf", "vi"} : Phi(h, <<N(x)>>)
  \/ Ask("opPhiDynamic", <<>>))
Masks == {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<0, 4>>, <<0, 3>>, <<0, 40>>, <<0, 48>>, <<0, 42>>, <<0, 50>>}
Pointers == {x \in Values : IsPtr(x)}
ParamOf(v) == ArgsOf(MemoryAccess, v)
Memory == req = <<>> /\ (
  \/ \E x \in {"pf", "pf2", "pi", "ps", "ps2", "vf", "ku", "par"}, v \in Masks : Ask("opLoad", <<N(x), Enum(v)>> \o ParamOf(v))
  \/ \E x \in {"pf", "ps"}, l \in Words : Ask("opLoad", <<N(x), <<"l", 0, 0>>, l>>)
  \/ \E x \in Pointers \cup {"vf"}, y \in {"vf", "kf", "vi", "ku", "pf", "par"}, v \in Masks : Ask("opStore", <<N(x), N(y), Enum(v)>> \o ParamOf(v))
  \/ \E l \in Words : Ask("opStore", <<N("pf"), N("vf"), <<"l", 0, 0>>, l>>)
  \/ \E x \in Pointers \cup {"vf"}, y \in Pointers \cup {"kf"} : Ask("opCopyMemory", <<N(x), N(y), Enum(<<0, 0>>), Enum(<<0, 0>>)>>)
  \/ \E v, u \in Masks, x \in {"pf2", "pi"} : Ask("opCopyMemory", <<N("pf"), N(x), Enum(v), Enum(u)>> \o ParamOf(v) \o ParamOf(u))
  \/ \E l \in Words : Ask("opCopyMemory", <<N("pf"), N("pf2"), Enum(<<0, 0>>), Enum(<<0, 0>>), l>>)
  \/ \E x \in Pointers \cup {"vf"}, y \in {"pf", "pv", "pr", "kf"}, z \in Values : Ask("opCopyMemorySized", <<N(x), N(y), N(z), Enum(<<0, 0>>), Enum(<<0, 0>>)>>)
  \/ \E v, u \in Masks, z \in {"ku", "vu", "si", "k0"} : Ask("opCopyMemorySized", <<N("pv"), N("pf2"), N(z), Enum(v), Enum(u)>> \o ParamOf(v) \o ParamOf(u))
  \/ \E l \in Words : Ask("opCopyMemorySized", <<N("pf"), N("pf2"), N("ku"), Enum(<<0, 0>>), Enum(<<0, 0>>), l>>)
  \/ \E t \in {"tpf", "tpi", "tf", "ts", "vf", "fn"}, x \in {"ps", "pf", "vf", "kf"}, n \in 0..3 : Ask("opAccessChain", <<N(t), N(x)>> \o SubSeq(<<N("ku2"), N("vu"), N("ki")>>, 1, n))
  \/ \E t \in {"tpf", "tpi", "tf", "vf"}, x \in {"ps", "vf", "kf"}, k \in {"ku2", "su", "vu", "vf"}, n \in 0..2 : Ask("opInBoundsAccessChain", <<N(t), N(x), N(k)>> \o SubSeq(<<N("vu"), N("ki")>>, 1, n)))
Next == Bare \/ Debug \/ Annotate \/ Modes \/ Functions \/ Flow \/ Memory
Spec == Init /\ [][Next]_req
-------------------------------------------------------------------------------
AsWord(o) == IF o[1] = "l" THEN o ELSE <<"i", 0, 0>>
\* what is made is an instruction of the grammar
Grammatical(P) ==
    LET Ws == [k \in DOMAIN P.os |-> AsWord(P.os[k])]  O == Op(P.op).o  S == Starts(O, 1, Ws, 1)  e == S[Len(S)] IN
    /\ \A d \in DOMAIN O : O[d][2] = 2 => \E k \in DOMAIN S : S[k][1] = d
    /\ P.op # 52 /\ Ws # <<>> => e[2] + Span(O[e[1]][1], Ws, e[2]) = Len(Ws) + 1
    /\ (Ws = <<>>) = (O = <<>>)
    /\ \A k \in DOMAIN S : LET c == CatOf(O[S[k][1]][1]) IN (c = 2 => Ws[S[k][2]][1] = "i") /\ (c \in {0, 1, 3} => Ws[S[k][2]][1] = "l")
    /\ Cardinality({k \in DOMAIN P.os : P.os[k] = Id}) = IF HasResult(P.op) THEN 1 ELSE 0
    /\ HasResult(P.op) => P.os[ResAt(P.op)] = Id
    /\ HasType(P.op) => Has(P.os[1], Types \cup {"tr"})
\* no argument is lost and none invented
Kept(h) == h \notin {"opFunction", "opPhi", "opPhiDynamic"}
Complete(P) ==
    LET given == {k \in DOMAIN req.a : req.a[k][1] \in {"n", "b"}} IN
    /\ \A k \in given : \E j \in DOMAIN P.os : P.os[j] = req.a[k]
    /\ \A j \in DOMAIN P.os : P.os[j][1] \in {"n", "b"} => (\E k \in given : P.os[j] = req.a[k]) \/ Has(P.os[j], Types \cup {"tr", "imp"}) \/ req.h \in {"opPhi", "opPhiDynamic"}
    \* in the order they were given
    /\ Kept(req.h) => \A k, j \in given : k < j => \E m, n \in DOMAIN P.os : m < n /\ P.os[m] = req.a[k] /\ P.os[n] = req.a[j]
Refuses(P) == P.v \in {"ok", "no"} /\ (P.v = "no" => req.h \notin {"opNop", "opLabel", "opKill", "opReturn", "opBranch", "opDecorate", "opName"} \/ req.a[1] = N("nores"))
Right == req # <<>> => LET p == Plan(req.h, req.a, req.ver, req.free) IN Refuses(p) /\ (p.v = "ok" => Grammatical(p) /\ Complete(p))
Out == (Emit /\ req # <<>>) => PrintT("S " \o ToJson(<<req.h, req.a, req.ver, req.free>>))
===============================================================================
