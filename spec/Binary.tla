------------------------------- MODULE Binary --------------------------------
(* Binaries as sequences of words <<hi, lo>>: how the words of an instruction   *)
(* divide into operands by the grammar, which word sequences are well formed,   *)
(* which are malformed, and what a module read from one has to be written as.   *)
EXTENDS Modules, Literals
Bad == <<"bad">>
KType == 47  KResult == 48  KString == 53  KNumber == 55  KSpecOp == 57
Kind(k) == G.kinds[k + 1]
HasBit(w, v) == IF v[2] # 0 THEN (w[2] \div v[2]) % 2 = 1 ELSE (w[1] \div v[1]) % 2 = 1
\* parameters of an enumerant or of a mask (in the order of the bits), <<-1>>: something the grammar does not know
RECURSIVE MaskParams(_, _, _, _, _)
MaskParams(vals, k, w, rest, acc) ==
  IF k > Len(vals) THEN (IF rest = <<0, 0>> THEN acc ELSE <<-1>>)
  ELSE IF vals[k].v # <<0, 0>> /\ HasBit(w, vals[k].v) THEN MaskParams(vals, k + 1, w, <<rest[1] - vals[k].v[1], rest[2] - vals[k].v[2]>>, acc \o vals[k].p)
  ELSE MaskParams(vals, k + 1, w, rest, acc)
Params(k, w) ==
  IF Kind(k).cat = 0 THEN MaskParams(Kind(k).vals, 1, w, w, <<>>)
  ELSE LET S == {x \in DOMAIN Kind(k).vals : Kind(k).vals[x].v = w} IN IF S = {} THEN <<-1>> ELSE Kind(k).vals[CHOOSE x \in S : TRUE].p
IdRole(k) == IF k = KType THEN "t" ELSE IF k = KResult THEN "r" ELSE "i"
\* operands of an opcode that are not its type or result
Args(op) == SelectSeq(Op(op).o, LAMBDA o : o[1] \notin {KType, KResult})
Rep(n, x) == [k \in 1..n |-> x]
(* one operand of kind k at the front of ws: its words' roles ("t" type, "r" result, "i" id, "l" literal), Bad, or "?" in it: not decidable *)
RECURSIVE One(_, _)
RECURSIVE Many(_, _, _)
RECURSIVE P(_, _, _)
Many(ks, ws, acc) ==
  IF ks = <<>> THEN acc
  ELSE IF Head(ks) = -1 THEN acc \o <<"?">>
  ELSE LET r == One(Head(ks), ws) IN IF r = Bad THEN Bad ELSE Many(Tail(ks), SubSeq(ws, Len(r) + 1, Len(ws)), acc \o r)
One(k, ws) ==
  IF ws = <<>> THEN Bad
  ELSE CASE Kind(k).cat = 2 -> <<IdRole(k)>>
    [] k = KString -> LET n == Taken(ws) IN IF n = 0 THEN Bad ELSE Rep(n, "l")
    [] k = KNumber -> Rep(Len(ws), "l")
    [] k = KSpecOp -> IF ws[1][1] # 0 \/ ~Known(ws[1][2]) THEN <<"?">> ELSE LET r == P(Args(ws[1][2]), Tail(ws), <<>>) IN IF r = Bad THEN Bad ELSE <<"l">> \o r
    [] Kind(k).cat = 4 -> Many(Kind(k).bases, ws, <<>>)
    [] Kind(k).cat \in {0, 1} -> LET p == Params(k, ws[1]) IN IF p = <<-1>> THEN <<"?">> ELSE Many(p, Tail(ws), <<"l">>)
    [] OTHER -> <<"l">>
P(os, ws, acc) ==
  IF os = <<>> THEN IF ws = <<>> THEN acc ELSE Bad
  ELSE IF ws = <<>> THEN IF \A k \in DOMAIN os : os[k][2] # 2 THEN acc ELSE Bad
  ELSE LET r == One(os[1][1], ws) IN
       IF r = Bad THEN Bad
       ELSE IF "?" \in {r[k] : k \in DOMAIN r} \/ Len(r) > Len(ws) THEN acc \o Rep(Len(ws), "?")
       ELSE P(IF os[1][2] = 1 THEN os ELSE Tail(os), SubSeq(ws, Len(r) + 1, Len(ws)), acc \o r)
\* roles of the operand words of an instruction
Roles(op, ws) == IF ~Known(op) THEN Bad ELSE P(Op(op).o, ws, <<>>)
Undecided(r) == \E k \in DOMAIN r : r[k] = "?"
RolesOf(c) == Roles(OpOf(c), Tail(c))
\* a switch on more than 32 bits has literals of two words
OpSwitch == 251  OpTInt == 21
RECURSIVE Targets(_, _)
Targets(n, acc) == IF n = 0 THEN acc ELSE IF n < 3 THEN Bad ELSE Targets(n - 3, acc \o <<"l", "l", "i">>)
WideSwitch(C, c) ==
  /\ OpOf(c) = OpSwitch /\ Len(c) > 2
  /\ \E x, t \in DOMAIN C : /\ Known(OpOf(C[x])) /\ Len(C[x]) > 2 /\ OpOf(C[t]) = OpTInt /\ Len(C[t]) = 4
                           /\ Op(OpOf(C[x])).res /\ Op(OpOf(C[x])).type /\ C[x][3] = c[2] /\ C[x][2] = C[t][2] /\ (C[t][3][1] > 0 \/ C[t][3][2] > 32)
RolesIn(C, c) == IF OpOf(c) = OpSwitch /\ WideSwitch(C, c) THEN Targets(Len(c) - 3, <<"i", "i">>) ELSE RolesOf(c)

------------------------------------------------------------------ \* where instructions may appear
Sec(op) == IF Known(op) THEN Op(op).sec ELSE -1
OpExtInst == 12
\* "m" module, "f" function head, "g" between blocks, "b" inside a block, "x" not allowed, "?" not decided here
At2(s, op) ==
  LET k == Sec(op) IN
  CASE s \in {"x", "?"} -> s
    [] k = 0 \/ k = -1 -> "?"
    [] s = "m" -> IF k \in 1..14 THEN "m" ELSE IF k = 15 THEN "f" ELSE IF op = OpExtInst THEN "?" ELSE "x"
    [] s \in {"f", "g"} -> CASE k = 16 -> (IF s = "f" THEN "f" ELSE "?") [] k = 17 -> "b" [] k = 18 -> "m" [] k = 14 -> "?" [] OTHER -> "x"
    [] s = "b" -> CASE k \in {12, 13, 14, 19} -> "b" [] k = 20 -> "g" [] OTHER -> "x"
Scope(C) == FoldLeft(LAMBDA s, c : At2(s, OpOf(c)), "m", C)

------------------------------------------------------------------ \* verdict on a word sequence
IdsWith(C, R, roles) == UNION {{C[k][j + 1] : j \in {x \in DOMAIN R[k] : R[k][x] \in roles}} : k \in DOMAIN C}
\* the parts a verdict is made of, computed once: framing, chunks and their roles
Facts(w) ==
  LET head == Len(w) > 4 /\ w[1] = Magic
      st == IF head THEN Starts(w, 6, <<>>) ELSE <<0>>
      C == IF st = <<0>> THEN <<>> ELSE Chunks(w, st) IN
  [head |-> head, bound |-> IF head THEN w[4] ELSE <<0, 0>>, tile |-> head /\ st # <<0>>, C |-> C, R |-> [k \in DOMAIN C |-> RolesIn(C, C[k])]]
InBound(id, b) == id # <<0, 0>> /\ (id[1] < b[1] \/ (id[1] = b[1] /\ id[2] < b[2]))
OpFun == 54  OpVar == 59
FirstFun(C) == LET I == {k \in DOMAIN C : OpOf(C[k]) = OpFun} IN IF I = {} THEN Len(C) + 1 ELSE CHOOSE i \in I : \A j \in I : i <= j
\* a variable of storage class Function (7) in front of the functions, a function whose id is none below the bound
Misplaced(f) ==
  \/ \E k \in 1..(FirstFun(f.C) - 1) : OpOf(f.C[k]) = OpVar /\ Len(f.C[k]) > 3 /\ f.C[k][4] = <<0, 7>>
  \/ \E k \in DOMAIN f.C : OpOf(f.C[k]) = OpFun /\ Len(f.C[k]) > 2 /\ ~InBound(f.C[k][3], f.bound)
\* must be refused when read
Malformed(f) ==
  \/ ~f.head \/ ~f.tile
  \/ Misplaced(f)
  \/ \E k \in DOMAIN f.C : f.R[k] = Bad
  \/ Scope(f.C) \in {"x", "f", "g", "b"}
\* an id is used that nothing defines, or is defined twice
Defs(f) == Len(FoldLeft(LAMBDA a, k : a \o SelectSeq(f.R[k], LAMBDA r : r = "r"), <<>>, [k \in DOMAIN f.C |-> k]))
Twice(f) == Defs(f) # Cardinality(IdsWith(f.C, f.R, {"r"}))
Dangling(f) == \E id \in IdsWith(f.C, f.R, {"i", "t"}) : id \notin IdsWith(f.C, f.R, {"r"})
\* 0 is no id: such an operand can not be written
NoZero(f) == <<0, 0>> \notin IdsWith(f.C, f.R, {"i", "t", "r"})
Clear(f) == f.tile /\ (\A k \in DOMAIN f.C : ~Undecided(f.R[k])) /\ Scope(f.C) # "?"
SecOps(C, k) == SelectSeq(C, LAMBDA c : Sec(OpOf(c)) = k)
NoDup(s) == Cardinality({s[k] : k \in DOMAIN s}) = Len(s)
Idx(C, k) == {i \in DOMAIN C : Sec(OpOf(C[i])) = k}
FunOf(C) == LET I == Idx(C, 15) IN IF I = {} THEN Len(C) + 1 ELSE CHOOSE i \in I : \A j \in I : i <= j
Order(op) == IF Sec(op) \in 11..14 THEN 11 ELSE Sec(op)
FunId(f) == f[1][3]
EpId(c) == c[3]
\* what is read and what is written can be compared: nothing is dropped as a duplicate, entry points belong to definitions
Comparable(C) ==
  /\ Len(SecOps(C, 4)) = 1
  /\ \A k \in FunOf(C)..(Len(C) - 1) : Sec(OpOf(C[k])) = 18 => Sec(OpOf(C[k + 1])) = 15
  /\ NoDup([k \in DOMAIN SecOps(C, 1) |-> SecOps(C, 1)[k][2]])
  /\ NoDup([k \in DOMAIN SecOps(C, 2) |-> StrOf(Tail(SecOps(C, 2)[k]))])
  /\ NoDup([k \in DOMAIN SecOps(C, 3) |-> StrOf(SubSeq(SecOps(C, 3)[k], 3, Len(SecOps(C, 3)[k])))])
  /\ \A k \in DOMAIN SecOps(C, 2) : StrOf(Tail(SecOps(C, 2)[k])) # <<>>
  /\ \A k \in DOMAIN SecOps(C, 3) : StrOf(SubSeq(SecOps(C, 3)[k], 3, Len(SecOps(C, 3)[k]))) # <<>>
  /\ LET fs == SplitFuns(SubSeq(C, FunOf(C), Len(C)))  es == SecOps(C, 5) IN
     /\ NoDup([k \in DOMAIN fs |-> FunId(fs[k])]) /\ NoDup([k \in DOMAIN es |-> EpId(es[k])])
     /\ \A k \in DOMAIN es : StrOf(SubSeq(es[k], 4, Len(es[k]))) # <<>> /\ \E x \in DOMAIN fs : FunId(fs[x]) = EpId(es[k]) /\ ~Declared(fs[x])
\* must be read: decided, in the logical order of sections, ids in range, only local variables have storage class Function (7)
WellFormed(f, w) ==
  /\ Clear(f) /\ ~Malformed(f) /\ Comparable(f.C)
  /\ LET n == FunOf(f.C) IN
     /\ \A k \in 1..(n - 2) : Order(OpOf(f.C[k])) <= Order(OpOf(f.C[k + 1]))
     /\ \A k \in 1..(n - 1) : Sec(OpOf(f.C[k])) = 12 => f.C[k][4] # <<0, 7>>
  /\ \A k \in DOMAIN f.C : \A j \in DOMAIN f.R[k] : f.R[k][j] = "r" => InBound(f.C[k][j + 1], w[4])

------------------------------------------------------------------ \* reading then writing
SortedSecs == <<4, 5, 6, 7, 8, 9, 10>>
SameBinary(f, w, v) ==
  LET g == Facts(v) IN
  /\ Chk(g.tile, "what was written is not framed")
  /\ Chk(v[2] = w[2] /\ v[4] = w[4] /\ v[5] = w[5], <<"header", SubSeq(w, 1, 5), SubSeq(v, 1, 5)>>)
  /\ LET C == f.C  D == g.C
         a == SubSeq(C, 1, FunOf(C) - 1)  b == SubSeq(D, 1, FunOf(D) - 1)
         fa == SplitFuns(SubSeq(C, FunOf(C), Len(C)))  fb == SplitFuns(SubSeq(D, FunOf(D), Len(D))) IN
     /\ \A k \in {1, 2, 3} : Chk(BagEq(SecOps(a, k), SecOps(b, k)), <<"section", k, SecOps(a, k), SecOps(b, k)>>)
     /\ \A k \in 4..14 : SameSeq(SecOps(b, k), SecOps(a, k), <<"section", k>>)
     /\ Chk(Len(a) = Len(b), <<"module level instructions", Len(a), Len(b)>>)
     /\ Chk(BagEq(fa, fb), <<"functions", {fa[k] : k \in DOMAIN fa} \ {fb[k] : k \in DOMAIN fb}, {fb[k] : k \in DOMAIN fb} \ {fa[k] : k \in DOMAIN fa}>>)
\* the same up to a renaming of ids: pairs <<old, new>>, one for every result
Rename(c, r, m) == [k \in DOMAIN c |-> IF k > 1 /\ r[k - 1] \in {"i", "t", "r"} THEN m[c[k]] ELSE c[k]]
SameRenamed(f, w, v, pairs) ==
  LET olds == {pairs[k][1] : k \in DOMAIN pairs}  news == {pairs[k][2] : k \in DOMAIN pairs}  n == Len(pairs)
      m == [x \in olds |-> (CHOOSE k \in DOMAIN pairs : pairs[k][1] = x)]
      to == [x \in olds |-> pairs[m[x]][2]] IN
  /\ Chk(olds = IdsWith(f.C, f.R, {"r"}) /\ Cardinality(olds) = n, <<"results", olds>>)
  /\ Chk(news = {Half(k) : k \in 1..n}, <<"new ids", news>>)
  /\ SameBinary([f EXCEPT !.C = [k \in DOMAIN f.C |-> Rename(f.C[k], f.R[k], to)]], [w EXCEPT ![4] = Half(n + 1)], v)
=============================================================================
