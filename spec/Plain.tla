-------------------------------- MODULE Plain ---------------------------------
(* Requests whose operands the caller spells out: which instruction they make.  *)
(* Arguments and operands: <<"n", name>> an instruction of the environment       *)
(* below, <<"b", name>> a block, <<"l", high, low>> a literal word, <<"s", bytes>>*)
(* a string.  Operands also: <<"id">> the result id, <<"new">> the source string  *)
(* or import that came into being with the request.                              *)
EXTENDS Registry, TLC
L == INSTANCE Literals
\* ---------------------------------------------------------------- environment
Types == {"tv", "tf", "ti", "tu", "tb", "ts", "ta", "tpf", "tpi", "tps", "tpv", "tpr", "tg", "tgf", "tq"}
Pointee == [tpf |-> "tf", tpi |-> "ti", tps |-> "ts", tpv |-> "tv", tpr |-> "tr"]
ValueType == [ku |-> "tu", ku2 |-> "tu", k0 |-> "tu", ki |-> "ti", kz |-> "ti", kq |-> "tq", kq0 |-> "tq", kq1 |-> "tq", kf |-> "tf", su |-> "tu", si |-> "ti",
              vf |-> "tf", vf2 |-> "tf", vf3 |-> "tf", vi |-> "ti", vi2 |-> "ti", vu |-> "tu", vb |-> "tb", par |-> "tf",
              pf |-> "tpf", pf2 |-> "tpf", pi |-> "tpi", ps |-> "tps", ps2 |-> "tps", pv |-> "tpv", pv2 |-> "tpv", pr |-> "tpr", pr2 |-> "tpr"]
Values == DOMAIN ValueType
Consts == {"ku", "ku2", "k0", "ki", "kz", "kf", "kq", "kq0", "kq1"}
SpecConsts == {"su", "si"}
Zeros == {"k0", "kz", "kq0"}
Blocks == {"B1", "B2", "B3"}
HomeOf == [vf |-> "B1", vf2 |-> "B2", vf3 |-> "B3", vi |-> "B1", vi2 |-> "B2", vu |-> "B1", vb |-> "B1"]
Result == [fn |-> "tv", fnf |-> "tf"]
FnTypes == {"tg", "tgf"}
\* instructions without a result: "nores"; a string: "str"; an imported set: "imp" (its name: ImpName)
ImpName == <<71, 76, 83, 76, 46, 115, 116, 100, 46, 52, 53, 48>>
IsPtr(x) == x \in Values /\ ValueType[x] \in DOMAIN Pointee
PointsTo(x) == Pointee[ValueType[x]]
IsInt(x) == x \in Values /\ ValueType[x] \in {"ti", "tu", "tq"}
Has(x, S) == x[1] = "n" /\ x[2] \in S
\* --------------------------------------------------------------------- verdicts
Flat(is) == FlattenSeq([k \in DOMAIN is |-> IF is[k][1] = "s" THEN LET w == L!StrWords(is[k][2]) IN [j \in DOMAIN w |-> <<"l", w[j][1], w[j][2]>>] ELSE <<is[k]>>])
Made(op, is) == [v |-> "ok", op |-> op, os |-> Flat(is), src |-> <<>>, imp |-> <<>>]
Refused == [v |-> "no", op |-> 0, os |-> <<>>, src |-> <<>>, imp |-> <<>>]
If(c, op, is) == IF c THEN Made(op, is) ELSE Refused
N(x) == <<"n", x>>
Lit(v) == <<"l", 0, v>>
Id == <<"id">>
From(a, k) == SubSeq(a, k, Len(a))
W(l) == <<l[2], l[3]>>
None(l) == W(l) = <<0, 0>>
MemoryAccess == 6
\* parameters of a memory access mask
Count(m) == Len(Params(MemoryAccess, W(m)))
Aligned == <<0, 2>>  Available == <<0, 8>>  Visible == <<0, 16>>
Copy(op, t, s, size, m1, m2, ps, ver) ==
  LET n1 == Count(m1)  head == <<t, s>> \o size IN
  IF ~IsPtr(t[2]) \/ ~IsPtr(s[2]) THEN Refused
  \* of a known size: what is copied is described by it; otherwise by the types
  ELSE IF size # <<>> /\ (~IsInt(size[1][2]) \/ (size[1][2] \in Consts /\ (size[1][2] \in Zeros \/ ValueType[size[1][2]] = "ti"))) THEN Refused
  ELSE IF size = <<>> /\ (PointsTo(t[2]) # PointsTo(s[2]) \/ PointsTo(t[2]) \in {"tv", "tr"}) THEN Refused
  ELSE IF None(m1) /\ None(m2) THEN If(ps = <<>>, op, head)
  ELSE IF None(m2) THEN Made(op, head \o <<m1>> \o ps)
  ELSE IF ver < 14 \/ Bit(W(m1), Visible) \/ Bit(W(m2), Available) THEN Refused
  ELSE Made(op, head \o <<m1>> \o SubSeq(ps, 1, n1) \o <<m2>> \o From(ps, n1 + 1))
Call(f, as) == Made(57, <<N(Result[f[2]]), Id, f>> \o as)
Plan(h, a, ver, free) ==
  CASE h = "opNop" -> Made(0, <<>>)
    [] h = "opUndef" -> If(Has(a[1], Types), 1, <<a[1], Id>>)
    [] h = "opSizeOf" -> If(IsPtr(a[1][2]), 321, <<N("tu"), Id, a[1]>>)
    [] h = "opSourceContinued" -> Made(2, a)
    [] h = "opSource" -> Made(3, a)
    [] h = "opSourceExtension" -> Made(4, a)
    [] h = "opName" -> If(a[1] # N("nores"), 5, a)
    [] h = "opMemberName" -> If(a[1] = N("ts"), 6, a)
    [] h = "opString" -> Made(7, <<Id>> \o a)
    [] h = "opLine" -> IF a[1][1] = "s" THEN [Made(8, <<<<"new">>, a[2], a[3]>>) EXCEPT !.src = <<a[1][2]>>] ELSE If(a[1] = N("str"), 8, a)
    [] h = "opNoLine" -> Made(317, <<>>)
    [] h = "opExtension" -> Made(10, a)
    [] h = "opExtInstImport" -> Made(11, <<Id>> \o a)
    [] h = "opExtInst" -> IF a[2][1] # "s" THEN Made(12, <<a[1], Id>> \o From(a, 2))
                          ELSE IF a[2][2] = ImpName THEN Made(12, <<a[1], Id, N("imp")>> \o From(a, 3))
                          ELSE [Made(12, <<a[1], Id, <<"new">>>> \o From(a, 3)) EXCEPT !.imp = <<a[2][2]>>]
    [] h = "opMemoryModel" -> Made(14, a)
    [] h = "opEntryPoint" -> Made(15, a)
    [] h = "opExecutionMode" -> Made(16, a)
    [] h = "opCapability" -> Made(17, a)
    [] h = "opSpecConstantOp" -> Made(52, <<a[1], Id>> \o From(a, 2))
    [] h = "opFunction" -> If(Has(a[2], Types) /\ Has(a[3], FnTypes), 54, <<a[2], Id, a[1], a[3]>>)
    [] h = "opFunctionParameter" -> If(Has(a[1], Types), 55, <<a[1], Id>>)
    [] h = "opFunctionEnd" -> Made(56, <<>>)
    [] h \in {"opFunctionCall", "opFunctionCallDynamic"} -> If(Has(a[1], Types) /\ Has(a[2], DOMAIN Result), 57, <<a[1], Id>> \o From(a, 2))
    [] h \in {"call", "callDynamic"} -> Call(a[1], From(a, 2))
    [] h = "opVariable" -> Made(59, <<a[1], Id>> \o From(a, 2))
    [] h = "opLoad" -> IF ~IsPtr(a[1][2]) \/ (None(a[2]) /\ Len(a) > 2) THEN Refused ELSE Made(61, <<N(PointsTo(a[1][2])), Id>> \o a)
    [] h = "opStore" -> If(IsPtr(a[1][2]) /\ PointsTo(a[1][2]) = ValueType[a[2][2]] /\ ~(None(a[3]) /\ Len(a) > 3), 62, a)
    [] h = "opCopyMemory" -> Copy(63, a[1], a[2], <<>>, a[3], a[4], From(a, 5), ver)
    [] h = "opCopyMemorySized" -> Copy(64, a[1], a[2], <<a[3]>>, a[4], a[5], From(a, 6), ver)
    [] h = "opAccessChain" -> If(Has(a[1], DOMAIN Pointee) /\ IsPtr(a[2][2]), 65, <<a[1], Id>> \o From(a, 2))
    [] h = "opInBoundsAccessChain" -> If(Has(a[1], DOMAIN Pointee) /\ IsPtr(a[2][2]) /\ a[3][2] \in Consts \cup SpecConsts, 66, <<a[1], Id>> \o From(a, 2))
    [] h = "opDecorate" -> Made(71, a)
    [] h = "opMemberDecorate" -> Made(72, a)
    [] h = "opDecorateId" -> Made(332, a)
    [] h = "opCopyObject" -> Made(83, <<N(ValueType[a[1][2]]), Id, a[1]>>)
    [] h = "opEmitVertex" -> Made(218, <<>>)
    [] h = "opEndPrimitive" -> Made(219, <<>>)
    [] h = "opEmitStreamVertex" -> If(IsInt(a[1][2]) /\ a[1][2] \in Consts \cup SpecConsts, 220, a)
    [] h = "opEndStreamPrimitive" -> If(IsInt(a[1][2]) /\ a[1][2] \in Consts \cup SpecConsts, 221, a)
    [] h \in {"opPhi", "opPhiDynamic"} ->
         IF (h = "opPhiDynamic" /\ Len(a) < 2) \/ \E k \in DOMAIN a : ValueType[a[k][2]] # ValueType[a[1][2]] \/ a[k][2] \notin DOMAIN HomeOf THEN Refused
         ELSE Made(245, <<N(ValueType[a[1][2]]), Id>> \o FlattenSeq([k \in DOMAIN a |-> <<a[k], <<"b", HomeOf[a[k][2]]>>>>]))
    [] h = "opLoopMerge" -> Made(246, a)
    [] h = "opSelectionMerge" -> Made(247, a)
    [] h = "opBranch" -> Made(249, a)
    [] h = "opBranchConditional" -> Made(250, a)
    [] h = "opLabel" -> Made(248, <<Id>>)
    [] h = "opKill" -> Made(252, <<>>)
    [] h = "opReturn" -> Made(253, <<>>)
    [] h = "opReturnValue" -> If(~free /\ ValueType[a[1][2]] = Result.fnf, 254, a)
    [] h = "opUnreachable" -> Made(255, <<>>)
    [] h = "opExecutionModeId" -> If(\A k \in 3..Len(a) : a[k][2] \in Consts \cup SpecConsts, 331, a)
\* turned into the operation of a specialization constant afterwards
AsSpec(p) == [p EXCEPT !.op = 52, !.os = SubSeq(@, 1, 2) \o <<Lit(p.op)>> \o From(@, 3)]
===============================================================================
