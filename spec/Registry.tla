------------------------------ MODULE Registry -------------------------------
(* What the tables shipped with the library have to state, taken from the      *)
(* registry, and how the words of an instruction fall to its operands.         *)
EXTENDS Grammar, FiniteSets, SequencesExt
LitString == 53
CatOf(k) == G.kinds[k + 1].cat
SetOf(s) == {s[i] : i \in DOMAIN s}
\* --------------------------------------------------------------------- tables
ExtOps(x) == CASE x = 1 -> G.glsl [] x = 2 -> G.opencl
Entry(x, op) == IF x = 0 THEN Op(op) ELSE LET t == ExtOps(x) IN t[CHOOSE i \in DOMAIN t : t[i].op = op]
Listed(x, op) == IF x = 0 THEN Known(op) ELSE \E i \in DOMAIN ExtOps(x) : ExtOps(x)[i].op = op
Operands(x, op) == LET o == Entry(x, op) IN [i \in DOMAIN o.o |-> <<o.o[i][1], CatOf(o.o[i][1]), o.o[i][2], o.on[i]>>]
\* classes of opcodes
IsType(op) == Op(op).class = "Type-Declaration" \/ (Op(op).sec = 11 /\ op \in 5700..5799)
IsConst(op) == Op(op).sec = 11 /\ ~IsType(op)
IsTerm(op) == Op(op).sec = 20
\* can never be inside a block
Outside(op) == IsType(op) \/ IsConst(op) \/ Op(op).sec \in ((1..8) \cup {9, 10, 15, 16, 17, 18})
NoClaim(op) == Op(op).sec \in {0, 12, 13, 14}
\* enumerants of a kind
Vals(k) == G.kinds[k + 1].vals
\* ------------------------------------------------- words and their operands
\* a word is <<"i", 0, 0>> (an id) or <<"l", high, low>>
Bit(v, e) == IF e[1] > 0 THEN (v[1] \div e[1]) % 2 = 1 ELSE (v[2] \div e[2]) % 2 = 1
Single(e) == Cardinality({b \in 0..15 : (e[1] \div 2^b) % 2 = 1}) + Cardinality({b \in 0..15 : (e[2] \div 2^b) % 2 = 1}) = 1
\* kinds of the parameters that enumerant v of kind k is followed by
Params(k, v) ==
  CASE CatOf(k) = 0 -> FlattenSeq([i \in DOMAIN Vals(k) |-> IF Single(Vals(k)[i].v) /\ Bit(v, Vals(k)[i].v) THEN Vals(k)[i].p ELSE <<>>])
    [] CatOf(k) = 1 -> LET S == {i \in DOMAIN Vals(k) : Vals(k)[i].v = v} IN IF S = {} THEN <<>> ELSE Vals(k)[CHOOSE i \in S : TRUE].p
    [] OTHER -> <<>>
Ends(w) == w[2] \div 256 = 0 \/ w[2] % 256 = 0 \/ w[3] \div 256 = 0 \/ w[3] % 256 = 0
\* number of words from p on that one operand of kind k takes, with its parameters
RECURSIVE Span(_, _, _), Spans(_, _, _)
Span(k, W, p) ==
  IF p > Len(W) THEN 0
  ELSE IF k = LitString THEN (IF Ends(W[p]) THEN 1 ELSE 1 + Span(k, W, p + 1))
  ELSE IF CatOf(k) = 4 THEN Len(G.kinds[k + 1].bases)
  ELSE IF W[p][1] = "l" THEN 1 + Spans(Params(k, <<W[p][2], W[p][3]>>), W, p + 1) ELSE 1
Spans(ks, W, p) == IF ks = <<>> THEN 0 ELSE LET n == Span(ks[1], W, p) IN n + Spans(Tail(ks), W, p + n)
\* where the operands start: <<declaration, position>>
RECURSIVE Starts(_, _, _, _)
Starts(o, d, W, p) ==
  IF p > Len(W) \/ d > Len(o) THEN <<>>
  ELSE <<<<d, p>>>> \o Starts(o, IF o[d][2] = 1 THEN d ELSE d + 1, W, p + Span(o[d][1], W, p))
First(S, P(_)) == LET c == SelectSeq(S, LAMBDA x : P(x[1])) IN IF c = <<>> THEN 0 ELSE c[1][2]
\* first word of the first operand of kind k; of the operand named n
OfKind(op, W, k) == First(Starts(Op(op).o, 1, W, 1), LAMBDA d : Op(op).o[d][1] = k)
Named(op, W, n) == First(Starts(Op(op).o, 1, W, 1), LAMBDA d : Op(op).on[d] = n)
===============================================================================
