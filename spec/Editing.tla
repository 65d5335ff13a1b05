-------------------------------- MODULE Editing --------------------------------
(* Editing a module: users of an instruction, replacement of uses, removal of   *)
(* instructions, blocks and functions.  Modules are records of sections as in   *)
(* Modules.tla; instructions <<node, opcode, operands>>.                        *)
EXTENDS Modules
NoOperand == <<"0">>
Args(i) == {k \in DOMAIN i[3] : k >= FirstArg(i[2])}
Uses(i, ops) == \E k \in Args(i) : i[3][k] \in ops
Users(m, ops) == LET a == All(m) IN {a[k][1] : k \in {x \in DOMAIN a : Uses(a[x], ops)}}
\* rewriting every operand that is not the result or its type
Swap(i, f(_)) == <<i[1], i[2], [k \in DOMAIN i[3] |-> IF k \in Args(i) THEN f(i[3][k]) ELSE i[3][k]]>>
Sections == {"caps", "exts", "imps", "eps", "modes", "srcs", "names", "procs", "decs", "tcs", "vars", "undefs", "lines"}
EachSeq(s, F(_)) == [k \in DOMAIN s |-> F(s[k])]
EachFun(f, F(_)) == [f EXCEPT !.fn = F(@), !.ps = EachSeq(@, F), !.end = F(@), !.bbs = [k \in DOMAIN @ |-> [lab |-> F(f.bbs[k].lab), ins |-> EachSeq(f.bbs[k].ins, F)]]]
Each(m, F(_)) == [s \in DOMAIN m |-> IF s \in Sections THEN EachSeq(m[s], F) ELSE IF s = "mm" THEN F(m.mm) ELSE IF s = "funs" THEN [k \in DOMAIN m.funs |-> EachFun(m.funs[k], F)] ELSE m[s]]
Replace(m, x, y) == LET one(o) == IF o = <<"i", x>> THEN (IF y = 0 THEN NoOperand ELSE <<"i", y>>) ELSE o
                        F(i) == Swap(i, one) IN Each(m, F)
\* instructions of module sections, parameters and blocks can be removed
Without(m, X) == LET keep(i) == i[1] \notin X IN
  [s \in DOMAIN m |-> IF s \in Sections THEN SelectSeq(m[s], keep)
                      ELSE IF s = "funs" THEN [k \in DOMAIN m.funs |-> [m.funs[k] EXCEPT !.ps = SelectSeq(@, keep), !.bbs = [j \in DOMAIN @ |-> [@[j] EXCEPT !.ins = SelectSeq(@, keep)]]]]
                      ELSE m[s]]
Removable(m) == UNION {{m[s][k][1] : k \in DOMAIN m[s]} : s \in Sections \ {"eps"}}
                \cup UNION {{m.funs[k].ps[j][1] : j \in DOMAIN m.funs[k].ps} : k \in DOMAIN m.funs}
                \cup UNION {UNION {{m.funs[k].bbs[j].ins[x][1] : x \in DOMAIN m.funs[k].bbs[j].ins} : j \in DOMAIN m.funs[k].bbs} : k \in DOMAIN m.funs}
\* names and decorations whose target is one of X
Annotates(i, X) == i[2] \in {5, 6, 71, 72, 332, 5632, 5633} /\ i[3] # <<>> /\ i[3][1][1] = "i" /\ i[3][1][2] \in X
Bare(m, X) == LET keep(i) == ~Annotates(i, X) IN [m EXCEPT !.names = SelectSeq(@, keep), !.decs = SelectSeq(@, keep)]
BlockNodes(b) == {b.ins[x][1] : x \in DOMAIN b.ins}
\* a block goes: what it contains loses its annotations, uses of the block and its label mean the replacement (0: nothing)
RemoveBlock(m, lab, to) ==
  LET own == UNION {UNION {IF m.funs[k].bbs[j].lab[1] = lab THEN BlockNodes(m.funs[k].bbs[j]) ELSE {} : j \in DOMAIN m.funs[k].bbs} : k \in DOMAIN m.funs}
      keep(b) == b.lab[1] # lab
      one(o) == IF o = <<"b", lab>> THEN (IF to = 0 THEN NoOperand ELSE <<"b", to>>) ELSE IF o = <<"i", lab>> THEN (IF to = 0 THEN NoOperand ELSE <<"i", to>>) ELSE o
      F(i) == Swap(i, one)
      m1 == Bare(m, own) IN
  Each([m1 EXCEPT !.funs = [k \in DOMAIN @ |-> [@[k] EXCEPT !.bbs = SelectSeq(@, keep)]]], F)
FunAt(m, fn) == CHOOSE k \in DOMAIN m.funs : m.funs[k].fn[1] = fn
FunOwns(f) == {f.ps[k][1] : k \in DOMAIN f.ps} \cup UNION {{f.bbs[k].lab[1]} \cup BlockNodes(f.bbs[k]) : k \in DOMAIN f.bbs}
RemoveFun(m, fn, to) ==
  LET f == m.funs[FunAt(m, fn)]
      keep(g) == g.fn[1] # fn
      keepEp(i) == <<i[1]>> # f.ep
      m1 == Bare(m, FunOwns(f)) IN
  Replace([m1 EXCEPT !.funs = SelectSeq(@, keep), !.eps = SelectSeq(@, keepEp)], fn, to)
Nodes(m) == LET a == All(m) IN {a[k][1] : k \in DOMAIN a}
Refs(m) == LET a == All(m) IN UNION {{a[k][3][x][2] : x \in {y \in DOMAIN a[k][3] : a[k][3][y][1] \in {"i", "b"}}} : k \in DOMAIN a}
\* every reference is to something that is there
Closed(m) == Refs(m) \subseteq Nodes(m)
================================================================================
