------------------------------- MODULE Modules -------------------------------
(* A module as its user sees it: sections of instructions <<node, opcode,      *)
(* operands>> where an operand is <<"i", node>> (an instruction), <<"b", node>> *)
(* (the block with that label), <<"l", hi, lo>> (a literal word) or <<"d", id>> *)
(* (the instruction's own id).  What the binary of a module is, and what ids it *)
(* may have, follows from this alone.                                          *)
EXTENDS Grammar, FiniteSets, TLC, SequencesExt

OpLabel == 248  OpFunctionEnd == 56  OpFunction == 54  OpVariable == 59  OpUndef == 1  OpLine == 8  OpNoLine == 317
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
FunInstrs(f) == <<f.fn>> \o f.ps \o Flat([k \in DOMAIN f.bbs |-> <<f.bbs[k].lab>> \o f.bbs[k].ins]) \o <<f.end>>
Globals(m) == m.caps \o m.exts \o m.imps \o <<m.mm>> \o m.eps \o m.modes \o m.srcs \o m.names \o m.procs \o m.decs \o m.tcs \o m.vars \o m.undefs \o m.lines
All(m) == Globals(m) \o Flat([k \in DOMAIN m.funs |-> FunInstrs(m.funs[k])])

\* the id an instruction has: -1 while it has none, 0 if it cannot have one
ResId(i) == LET p == ResAt(i[2]) IN IF p = 0 THEN 0 ELSE IF p <= Len(i[3]) /\ i[3][p][1] = "d" /\ i[3][p][2] # 0 THEN i[3][p][2] ELSE -1
\* ids of a module whose instructions are numbered in module order
Ids(m) == LET a == All(m) IN [k \in DOMAIN a |-> ResId(a[k])]

------------------------------------------------------------------ \* ids
IdsOk(ids, bound) ==
  LET P == SelectSeq(ids, LAMBDA x : x # 0)  S == {P[k] : k \in DOMAIN P} IN
  /\ Cardinality(S) = Len(P)
  /\ S = 1..(bound - 1)

------------------------------------------------------------------ \* words
Half(n) == <<n \div 65536, n % 65536>>
RefOk(o, ids) == o[1] \in {"i", "b"} => o[2] \in DOMAIN ids /\ ids[o[2]] > 0
Word(o, ids) == CASE o[1] \in {"i", "b"} -> (IF o[2] \in DOMAIN ids THEN Half(ids[o[2]]) ELSE <<-1, -1>>)
                  [] o[1] = "l" -> <<o[2], o[3]>>
                  [] o[1] = "d" -> Half(o[2])
                  [] OTHER -> <<-1, -1>>
Encode(i, ids) == <<<<Len(i[3]) + 1, i[2]>>>> \o [k \in DOMAIN i[3] |-> Word(i[3][k], ids)]
EncodeAll(is, ids) == [k \in DOMAIN is |-> Encode(is[k], ids)]

\* words tile into instructions: the positions where instructions start, or <<0>>
RECURSIVE Starts(_, _, _)
Starts(w, p, acc) == IF p = Len(w) + 1 THEN acc
                     ELSE IF w[p][1] = 0 \/ p + w[p][1] > Len(w) + 1 THEN <<0>>
                     ELSE Starts(w, p + w[p][1], Append(acc, p))
Chunks(w, st) == [k \in DOMAIN st |-> SubSeq(w, st[k], st[k] + w[st[k]][1] - 1)]
OpOf(c) == c[1][2]
Magic == <<1827, 515>>   \* 0x07230203

\* functions as separate instruction sequences
SplitFuns(cs) == LET ends == SelectSeq([k \in DOMAIN cs |-> IF OpOf(cs[k]) = OpFunctionEnd THEN k ELSE 0], LAMBDA x : x > 0)
                 IN [k \in DOMAIN ends |-> SubSeq(cs, (IF k = 1 THEN 0 ELSE ends[k - 1]) + 1, ends[k])]
Declared(f) == ~\E k \in DOMAIN f : OpOf(f[k]) = OpLabel

Chk(ok, what) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", what>>) /\ FALSE
BagEq(a, b) == Len(a) = Len(b) /\ {a[k] : k \in DOMAIN a} = {b[k] : k \in DOMAIN b}
\* the first position where two sequences differ, for the report
Diff(a, b) == IF a = b THEN <<>> ELSE
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      D == {k \in 1..n : a[k] # b[k]} IN
  IF D = {} THEN <<"lengths", Len(a), Len(b)>> ELSE LET k == CHOOSE x \in D : \A y \in D : x <= y IN <<k, a[k], b[k]>>
SameSeq(a, b, what) == a = b \/ (PrintT(<<"REJECT", what, Diff(a, b)>>) /\ FALSE)

\* in 9. (types, constants, globals, undefs) the kinds may be mixed as long as
\* each keeps its order and everything is declared before it is used
Kind9(op) == IF op = OpVariable THEN 2 ELSE IF op = OpUndef THEN 3 ELSE IF op \in {OpLine, OpNoLine} THEN 4 ELSE 1
\* opcodes whose operands may refer to something declared later
Forward == {39}

\* the id words of section 9 refer only to ids declared before (instructions is: the section's, in their order)
DeclaredFirst(is, ids) ==
  LET pos == [n \in {is[k][1] : k \in DOMAIN is} |-> CHOOSE k \in DOMAIN is : is[k][1] = n] IN
  \A k \in DOMAIN is : is[k][2] \in Forward \/ \A o \in DOMAIN is[k][3] : is[k][3][o][1] = "i" /\ is[k][3][o][2] \in DOMAIN pos => pos[is[k][3][o][2]] < k

WriteOk(m, w) ==
  LET ids == Ids(m)
      st == Starts(w, 6, <<>>) IN
  /\ Chk(Len(w) > 5, "no binary was written")
  /\ Chk(w[1] = Magic, <<"magic number", w[1]>>)
  /\ Chk(w[2] = m.ver /\ w[5] = m.schema, <<"header version/schema", w[2], w[5]>>)
  /\ Chk(w[4] = m.bound, <<"header bound", w[4], m.bound>>)
  /\ Chk(st # <<0>>, "the word counts do not tile the stream")
  /\ LET C == Chunks(w, st)
         n1 == Len(m.caps)  n2 == n1 + Len(m.exts)  n3 == n2 + Len(m.imps)
         mid == <<m.mm>> \o m.eps \o m.modes \o m.srcs \o m.names \o m.procs \o m.decs
         n4 == n3 + Len(mid)
         s9 == m.tcs \o m.vars \o m.undefs \o m.lines
         n5 == n4 + Len(s9)
         sec(a, b) == SubSeq(C, a + 1, IF b <= Len(C) THEN b ELSE Len(C))
         got9 == sec(n4, n5)
         funs == SplitFuns(sec(n5, Len(C))) 
         want == [k \in DOMAIN m.funs |-> EncodeAll(FunInstrs(m.funs[k]), ids)] IN
     /\ \A i \in ToSet(All(m)) : \A o \in DOMAIN i[3] : Chk(RefOk(i[3][o], ids) /\ i[3][o][1] \in {"i", "b", "l", "d"}, <<"operand refers to nothing in the module", i, o>>)
     /\ Chk(BagEq(sec(0, n1), EncodeAll(m.caps, ids)), <<"capabilities", sec(0, n1)>>)
     /\ Chk(BagEq(sec(n1, n2), EncodeAll(m.exts, ids)), <<"extensions", sec(n1, n2)>>)
     /\ Chk(BagEq(sec(n2, n3), EncodeAll(m.imps, ids)), <<"imports", sec(n2, n3)>>)
     /\ SameSeq(sec(n3, n4), EncodeAll(mid, ids), "memory model ... decorations")
     /\ \A k \in 1..4 : SameSeq(SelectSeq(got9, LAMBDA c : Kind9(OpOf(c)) = k), EncodeAll(SelectSeq(s9, LAMBDA i : Kind9(i[2]) = k), ids), <<"types, constants, globals, undefs", k>>)
     /\ Chk(DeclaredFirst(s9, ids), "a type, constant or global is used before it is declared")
     /\ Chk(BagEq(funs, want), <<"functions", Len(funs), Len(want), {k \in DOMAIN want : want[k] \notin {funs[x] : x \in DOMAIN funs}}>>)
     /\ Chk(\A a, b \in DOMAIN funs : a < b /\ Declared(funs[b]) => Declared(funs[a]), "a function declaration follows a definition")
     /\ Chk(n5 + (IF funs = <<>> THEN 0 ELSE FoldLeft(LAMBDA x, y : x + Len(y), 0, funs)) = Len(C), "instructions that belong to no section")
=============================================================================
