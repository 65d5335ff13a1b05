------------------------------- MODULE Generic -------------------------------
(* Type directed operations: which operation a request Add, Sub, ... stands for  *)
(* given the types of its operands. A block is a stack: the one operand forms     *)
(* and the operators apply to what was added last.                                *)
EXTENDS Typing

Words(t) == CASE t = F(32) -> <<16256, 0>> [] t = F(64) -> <<0, 0, 16368, 0>> [] OTHER -> <<>>
K(t) == <<"k", t, Words(t)>>       \* the constant one of a floating point type
Both(a, b, k) == SV(a, k) /\ SV(b, k)
BothUnsigned(a, b) == Unsigned(a) /\ Unsigned(b)
Pick(a, b, int, flt, bool) == IF Both(a, b, "Int") THEN int ELSE IF Both(a, b, "Float") THEN flt ELSE IF Both(a, b, "Bool") THEN bool ELSE ""
Compare(a, b, s, u, f) == Pick(a, b, IF BothUnsigned(a, b) THEN u ELSE s, f, "")
Swap(r) == [r EXCEPT !.s = IF r.s = <<>> THEN <<>> ELSE <<<<r.s[1][1], r.s[1][2], <<A(2), A(1)>>>>>>]
MulName(a, b) ==
  CASE Both(a, b, "Int") -> <<"opIMul", 0>>
    [] Both(a, b, "Float") /\ IsVec(a) = IsVec(b) -> <<"opFMul", 0>>
    [] Both(a, b, "Float") /\ IsVec(a) /\ ~IsVec(b) -> <<"opVectorTimesScalar", 0>>
    [] Both(a, b, "Float") /\ ~IsVec(a) /\ IsVec(b) -> <<"opVectorTimesScalar", 1>>
    [] IsMat(a) /\ IsFlt(b) -> <<"opMatrixTimesScalar", 0>>
    [] IsFlt(a) /\ IsMat(b) -> <<"opMatrixTimesScalar", 1>>
    [] IsVec(a) /\ IsMat(b) -> <<"opVectorTimesMatrix", 0>>
    [] IsMat(a) /\ IsVec(b) -> <<"opMatrixTimesVector", 0>>
    [] IsMat(a) /\ IsMat(b) -> <<"opMatrixTimesMatrix", 0>>
    [] OTHER -> <<"", 0>>
\* a vector divided by a scalar is the vector times the inverse of the scalar
ByScalar(a, b) == FltVec(a) /\ b = a[2]
Inverse(a, b) == <<<<136, b, <<K(b), A(2)>>>>, <<142, a, <<A(1), <<"n", 1>>>>>>>>
DivName(a, b) == Pick(a, b, IF BothUnsigned(a, b) THEN "opUDiv" ELSE "opSDiv", IF IsVec(a) = IsVec(b) THEN "opFDiv" ELSE "", "")
Name(g, a, b) ==
  CASE g = "Add" -> Pick(a, b, "opIAdd", "opFAdd", "")
    [] g = "Sub" -> Pick(a, b, "opISub", "opFSub", "")
    [] g = "Mul" -> MulName(a, b)[1]
    [] g = "Div" -> DivName(a, b)
    [] g = "Equal" -> Pick(a, b, "opIEqual", "opFOrdEqual", "opLogicalEqual")
    [] g = "NotEqual" -> Pick(a, b, "opINotEqual", "opFOrdNotEqual", "opLogicalNotEqual")
    [] g = "Greater" -> Compare(a, b, "opSGreaterThan", "opUGreaterThan", "opFOrdGreaterThan")
    [] g = "GreaterEqual" -> Compare(a, b, "opSGreaterThanEqual", "opUGreaterThanEqual", "opFOrdGreaterThanEqual")
    [] g = "Less" -> Compare(a, b, "opSLessThan", "opULessThan", "opFOrdLessThan")
    [] g = "LessEqual" -> Compare(a, b, "opSLessThanEqual", "opULessThanEqual", "opFOrdLessThanEqual")
    [] g = "Not" -> IF SV(a, "Int") THEN "opNot" ELSE IF SV(a, "Bool") THEN "opLogicalNot" ELSE ""
Pairs == {"Add", "Sub", "Mul", "Div", "Equal", "NotEqual", "Greater", "GreaterEqual", "Less", "LessEqual"}
Requests == Pairs \cup {"Not"}
\* scalar: may a vector be divided by a scalar. v = "half": refused, the inverse may have been added
GRule(g, ts, scalar) ==
  LET a == ts[1]  b == ts[Len(ts)]  h == Name(g, a, b) IN
  IF h # "" THEN (IF g = "Mul" /\ MulName(a, b)[2] = 1 THEN Swap(Rule(h, <<b, a>>, <<>>)) ELSE Rule(h, ts, <<>>))
  ELSE IF g # "Div" \/ ~scalar THEN No
  ELSE IF ByScalar(a, b) THEN (IF Words(b) = <<>> THEN [v |-> "half", s |-> <<>>] ELSE Ok(Inverse(a, b)))
  ELSE IF IsVec(a) /\ IsFlt(b) THEN [v |-> "half", s |-> <<>>] ELSE No
Result(r) == r.s[Len(r.s)][2]

Answers(r, e) ==
  CASE r.v = "ok" -> ~e.err /\ e.logs = 0 /\ e.new = r.s
    [] r.v = "no" -> e.err /\ e.logs > 0 /\ e.new = <<>>
    [] r.v = "half" -> e.err /\ e.logs > 0 /\ Len(e.new) <= 1
==============================================================================
