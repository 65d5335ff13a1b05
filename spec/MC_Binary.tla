------------------------------ MODULE MC_Binary ------------------------------
(* Derivations of the grammar: every opcode, operand by operand.  Tokens: <<"t">>, *)
(* <<"r">>, <<"i">> ids by role, <<"l", hi, lo>> literal words.                     *)
EXTENDS Binary, Json
CONSTANT Budget
VARIABLES op, os, tok, left, opt
vars == <<op, os, tok, left, opt>>
Lit(w) == <<<<"l", w[1], w[2]>>>>
Lits(ws) == [k \in DOMAIN ws |-> <<"l", ws[k][1], ws[k][2]>>]
Abc(n) == StrWords(SubSeq(<<97, 98, 99, 100, 101, 102, 103, 104, 105>>, 1, n))
Plain(k) == LET V == Kind(k).vals  S == {x \in DOMAIN V : V[x].p = <<>> /\ (Kind(k).cat = 1 \/ V[x].v # <<0, 0>>)} IN IF S = {} THEN V[1] ELSE V[CHOOSE x \in S : \A y \in S : x <= y]
RECURSIVE Def(_)
RECURSIVE DefAll(_)
DefAll(ks) == IF ks = <<>> THEN <<>> ELSE Def(Head(ks)) \o DefAll(Tail(ks))
Req(o) == [k \in DOMAIN SelectSeq(o, LAMBDA x : x[2] # 0) |-> SelectSeq(o, LAMBDA x : x[2] # 0)[k][1]]
Def(k) ==
  CASE Kind(k).cat = 2 -> <<<<IdRole(k)>>>>
    [] k = KString -> Lits(Abc(3))
    [] k = KSpecOp -> Lit(<<0, 128>>) \o <<<<"i">>, <<"i">>>>
    [] Kind(k).cat = 4 -> DefAll(Kind(k).bases)
    [] Kind(k).cat \in {0, 1} -> Lit(Plain(k).v) \o DefAll(Plain(k).p)
    [] OTHER -> Lit(<<0, 3>>)
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Bits(k) == {v \in {Kind(k).vals[x] : x \in DOMAIN Kind(k).vals} : v.v # <<0, 0>>}
Mask(k, w) == Lit(w) \o DefAll(Params(k, w))
Alts(k) ==
  CASE Kind(k).cat = 2 -> {}
    [] k = KString -> {Lits(Abc(n)) : n \in {0, 4, 5, 7, 8}}
    [] k = KNumber -> {Lits(<<<<1, 2>>, <<3, 4>>>>), Lit(<<65535, 65535>>)}
    [] k = KSpecOp -> {Lit(<<0, o>>) \o DefAll(Req(Args(o))) : o \in {65, 79, 81, 82, 114, 126, 164, 169, 200}}
    [] Kind(k).cat = 0 -> {Mask(k, v.v) : v \in Bits(k)} \cup {Mask(k, <<0, 0>>)} \cup {Mask(k, Plus(a.v, b.v)) : <<a, b>> \in {<<x, y>> \in Bits(k) \X Bits(k) : x.v # y.v}}
         \cup {Mask(k, FoldLeft(Plus, <<0, 0>>, SetToSeq({x.v : x \in Bits(k)})))}
    [] Kind(k).cat = 1 -> {Lit(v.v) \o DefAll(v.p) : v \in {Kind(k).vals[x] : x \in DOMAIN Kind(k).vals}}
    [] Kind(k).cat = 3 -> {Lit(<<65535, 65535>>), Lit(<<0, 0>>), Lit(<<32768, 0>>)}
    [] OTHER -> {}
Times(n, s) == Flat([k \in 1..n |-> s])
Long(n) == StrWords([k \in 1..n |-> 97 + (k % 26)])
\* instructions of more than 255 words: many repeated operands, long strings
Wide(o) == IF left = Budget THEN (CASE o[2] = 1 -> {Times(n, Def(o[1])) : n \in {260}} [] o[1] = KString -> {Lits(Long(1030))} [] OTHER -> {}) ELSE {}
Init == op \in {G.ops[k].op : k \in DOMAIN G.ops} /\ os = Op(op).o /\ tok = <<>> /\ left = Budget /\ opt = FALSE
Take(s, c, rest) == left >= c /\ tok' = tok \o s /\ left' = left - c /\ os' = rest
\* required operands, optional ones (none after one that is left out), repeated ones
Required == os # <<>> /\ os[1][2] = 2 /\ UNCHANGED <<op, opt>> /\ (Take(Def(os[1][1]), 0, Tail(os)) \/ \E s \in Alts(os[1][1]) : Take(s, 1, Tail(os)))
Optional == os # <<>> /\ os[1][2] = 0 /\ UNCHANGED op
            /\ \/ Take(<<>>, 0, <<>>) /\ UNCHANGED opt
               \/ opt' = TRUE /\ LET c == IF opt THEN 0 ELSE 1 IN (Take(Def(os[1][1]), c, Tail(os)) \/ \E s \in Alts(os[1][1]) : Take(s, 1, Tail(os)))
Repeated == os # <<>> /\ os[1][2] = 1 /\ UNCHANGED <<op, opt>> /\ (Take(Def(os[1][1]), 0, Tail(os)) \/ \E n \in {0, 2, 3} : Take(Times(n, Def(os[1][1])), 1, Tail(os)))
WideOne == os # <<>> /\ UNCHANGED <<op, opt>> /\ \E s \in Wide(os[1]) : Take(s, 1, Tail(os))
Next == Required \/ Optional \/ Repeated \/ WideOne
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------
Words == [k \in DOMAIN tok |-> IF tok[k][1] = "l" THEN <<tok[k][2], tok[k][3]>> ELSE <<0, 7>>]
Derived == os = <<>> => Roles(op, Words) = [k \in DOMAIN tok |-> tok[k][1]]
\* a proper prefix is either refused or its own derivation, a further word is refused unless the last operand repeats
Sharp == os = <<>> /\ Len(tok) < 100 =>
  LET r == [k \in DOMAIN tok |-> tok[k][1]] IN
  \A n \in 0..(Len(tok) - 1) : LET q == Roles(op, SubSeq(Words, 1, n)) IN q = Bad \/ Undecided(q) \/ q = SubSeq(r, 1, n)
Out == os = <<>> => PrintT("S " \o ToJson(<<op, Sec(op), tok>>))
=============================================================================
