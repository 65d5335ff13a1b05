---------------------------- MODULE Trace_Linking ------------------------------
(* One event per import: the library L, the consumer before (B) and after (A),  *)
(* was: the node in A of every node of B (0: gone), the selected options, the    *)
(* reported result; and events for the helpers that prepare modules for linking. *)
EXTENDS Linking, Interfaces, TraceBase
VARIABLES l
e == Trace[l]
Opt(o) == e.opt[o]
\* instructions may get ids (whether the right ones: see ids)
NoId(s) == [k \in DOMAIN s |-> <<s[k][1], s[k][2], [x \in DOMAIN s[k][3] |-> IF s[k][3][x][1] = "d" THEN <<"d", 0>> ELSE s[k][3][x]]>>]
NI(i) == NoId(<<i>>)[1]
Old(was) == {was[k] : k \in DOMAIN was} \ {0}
TrOp(o, was) == IF IsRefOp(o) THEN <<o[1], was[o[2]]>> ELSE o
Tr(i, was) == <<was[i[1]], i[2], [k \in DOMAIN i[3] |-> TrOp(i[3][k], was)]>>
TrSeq(s, was) == [k \in DOMAIN s |-> Tr(s[k], was)]
Kept(s, old) == SelectSeq(s, LAMBDA i : i[1] \in old)
Added(s, old) == SelectSeq(s, LAMBDA i : i[1] \notin old)
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
\* a note (name, decoration) without its own node and with its target replaced
Note(i, t) == <<i[2], <<t>>, Tail(i[3])>>
Plain(s) == [k \in DOMAIN s |-> Note(s[k], s[k][3][1][2])]
Minor(m) == m.ver[2] \div 256
Numbered(m) == LET a == All(m) IN \A k \in DOMAIN a : a[k][1] = k
CapSet(m) == {m.caps[k][3][1][3] : k \in DOMAIN m.caps}
StrSet(s, p) == {StrOf(LitsFrom(s[k], p)) : k \in DOMAIN s}
Newer(a, b) == IF a[1] > b[1] \/ (a[1] = b[1] /\ a[2] > b[2]) THEN a ELSE b
EpIo(i) == SelectSeq(Tail(Tail(i[3])), LAMBDA o : o[1] # "l")
EpRest(i) == <<i[2], <<i[3][1], i[3][2]>>, SelectSeq(Tail(Tail(i[3])), LAMBDA o : o[1] = "l")>>

Linked ==
  e.ev = "import" /\
  LET L == e.L  B == e.B  A == e.A  was == e.was
      LI == All(L)  BI == All(B)  AI == All(A)
      LD == Values(L)  BD == Values(B)  AD == Values(A)
      LB == Bodies(L)  BB == Bodies(B)  AB == Bodies(A)
      old == Old(was)
      exps == Links(L, Export)  imps == Links(B, Import)
      \* imports with an export of that name
      hit(i) == {k \in DOMAIN exps : LinkName(exps[k]) = LinkName(i)}
      libOf(i) == LinkTarget(exps[CHOOSE k \in hit(i) : TRUE])
      matched == {k \in DOMAIN imps : hit(imps[k]) # {}}
      typed == {k \in matched : LET a == SymType(LI, LD, libOf(imps[k])) IN a # <<"none">> /\ a = SymType(BI, BD, LinkTarget(imps[k]))}
      stop == {libOf(imps[k]) : k \in typed}
      \* library symbols whose binding fails before their uses could be bound
      wrong == {libOf(imps[k]) : k \in matched \ typed}
      reach == [k \in typed |-> Reached(LI, LB, stop, libOf(imps[k]))]
      needs(S) == (\E n \in S : n \in ModuleVars(L) /\ n \notin stop /\ ~Opt("vars")) \/ (\E n \in S : LI[n][2] = OpFunction /\ n \notin stop /\ ~Opt("funs"))
                  \/ (\E n \in S : LI[n][2] = 11 /\ ~Opt("extsets")) \/ (\E n \in S : LI[n][2] = 7 /\ ~Opt("strs") /\ ~Opt("src"))
      unclear == {k \in typed : ~Opt("types") \/ ~Opt("consts") \/ reach[k] \cap wrong # {} \/ \E n \in reach[k] : LI[n][2] = 8 /\ ~Opt("strs") /\ ~Opt("src")}
      must == {k \in typed : k \notin unclear /\ ~needs(reach[k])}
      mustnot == {k \in typed : needs(reach[k])} \cup (matched \ typed)
      linesFail == Opt("lines") /\ ~Opt("src") /\ ~Opt("strs") /\ \E k \in DOMAIN L.lines : L.lines[k][2] = OpLine
      \* decorations of B that are gone
      gone == {k \in DOMAIN imps : was[imps[k][1]] = 0}
      bound == must \cup (gone \cap typed)
      clean == typed = must /\ matched = typed /\ ~linesFail
      \* correspondence
      newOf(s) == Added(s, old)
      copied == (IF Opt("src") THEN Pairs([k \in DOMAIN L.srcs |-> L.srcs[k][1]], [k \in DOMAIN newOf(A.srcs) |-> newOf(A.srcs)[k][1]]) ELSE {})
                \cup (IF Opt("lines") /\ ~linesFail THEN Pairs([k \in DOMAIN L.lines |-> L.lines[k][1]], [k \in DOMAIN newOf(A.lines) |-> newOf(A.lines)[k][1]]) ELSE {})
                \cup (IF Opt("procs") THEN Pairs([k \in DOMAIN L.procs |-> L.procs[k][1]], [k \in DOMAIN newOf(A.procs) |-> newOf(A.procs)[k][1]]) ELSE {})
      roots == {<<libOf(imps[k]), was[LinkTarget(imps[k])]>> : k \in bound}
      \* symbols that stay declared only
      open == {<<libOf(imps[k]), was[LinkTarget(imps[k])]>> : k \in typed \ bound}
      P == Close(LI, AI, LB, [x \in DOMAIN AB \ {o[2] : o \in open} |-> AB[x]], roots \cup copied, {})
      rootL == {r[1] : r \in roots}
      \* lengths of arrays (the length is a number of the type) and their types
      lens == {AI[p[2]][3][3][2] : p \in {x \in P : AI[x[2]][2] = 28}}
      about == {p[2] : p \in P} \cup lens \cup UNION {RefsOf(AI[n]) : n \in lens}
      fresh(p) == p[2] \notin old
      imageNew == {p[2] : p \in {x \in P : fresh(x)}}
      \* new parts of types and constants
      implied == UNION {RefsOf(AI[n]) : n \in imageNew}
      newTC == newOf(A.tcs)
      boundFuns == {LinkTarget(imps[k]) : k \in {x \in typed : BI[LinkTarget(imps[x])][2] = OpFunction}}
      boundVars == {LinkTarget(imps[k]) : k \in {x \in typed : BI[LinkTarget(imps[x])][2] = OpVariable}}
      sec(s, b, a) == SameSeq(NoId(TrSeq(b, was)), NoId(Kept(a, old)), <<"consumer changed", s>>)
      linkB == CapSet(B) \cap {5}
      links == Len(Links(A, Export)) + Len(Links(A, Import))
      ext(m) == StrSet(m.exts, 1) IN
  /\ Check(Numbered(L) /\ Numbered(B) /\ Numbered(A) /\ Len(was) = Len(BI), <<"driver: numbering">>)
  \* ---------------------------------------------------------- reported
  /\ Check(~(mustnot # {} \/ linesFail) \/ ~e.ok, <<"success reported, but not bound:", {LinkName(imps[k]) : k \in mustnot}, "wrong type", matched \ typed, linesFail>>)
  /\ Check(typed # must \/ matched # typed \/ linesFail \/ e.ok, <<"failure reported", e.err>>)
  \* ---------------------------------------------------------- bound imports lose their decoration, all others keep it
  /\ \A k \in must : Check(k \in gone, <<"import is not bound", LinkName(imps[k])>>)
  /\ \A k \in DOMAIN imps : Check(k \in gone => k \in typed /\ k \notin mustnot, <<"import without definition is no longer marked", LinkName(imps[k])>>)
  \* ---------------------------------------------------------- what was there
  /\ Check(\A k \in DOMAIN was : was[k] # 0 \/ BI[k] \in {imps[x] : x \in gone} \/ BI[k] \in ToSet(B.caps) , <<"removed from the consumer", {BI[k] : k \in {x \in DOMAIN was : was[x] = 0}}>>)
  /\ \A i \in ToSet(B.imps) : Check(NI(Tr(i, was)) \in ToSet(NoId(A.imps)), <<"import set", i>>)
  /\ sec("modes", B.modes, A.modes) /\ sec("srcs", B.srcs, A.srcs) /\ sec("names", B.names, A.names) /\ sec("procs", B.procs, A.procs)
  /\ sec("decs", SelectSeq(B.decs, LAMBDA i : was[i[1]] # 0), A.decs) /\ sec("tcs", B.tcs, A.tcs) /\ sec("undefs", B.undefs, A.undefs) /\ sec("lines", B.lines, A.lines)
  /\ sec("mm", <<B.mm>>, <<A.mm>>)
  /\ LET a == NoId(Kept(A.vars, old))  b == NoId(TrSeq(B.vars, was)) IN
       Check(Len(a) = Len(b) /\ \A k \in DOMAIN a : a[k] = b[k] \/ (B.vars[k][1] \in boundVars /\ Len(a[k][3]) = 4 /\ a[k] = <<b[k][1], b[k][2], Append(SubSeq(b[k][3], 1, 3), a[k][3][4])>>), <<"consumer changed vars", Diff(b, a)>>)
  /\ \A k \in DOMAIN B.funs : LET f == B.funs[k]  a == was[f.fn[1]] IN
       Check(a \in DOMAIN AB, <<"function is gone", f.fn>>)
       /\ IF f.fn[1] \in boundFuns THEN
            \* a declaration stays a declaration of the same signature
            Check(\A x \in DOMAIN f.ps : AB[a][x + 1] = was[f.ps[x][1]] /\ NI(AI[was[f.ps[x][1]]]) = NI(Tr(f.ps[x], was)), <<"parameters of the import", f.fn>>)
          ELSE SameSeq(NoId(TrSeq(FunInstrs(f), was)), NoId([x \in DOMAIN AB[a] |-> AI[AB[a][x]]]), <<"function changed", f.fn>>)
  /\ Check(Len(A.eps) = Len(B.eps) /\ \A k \in DOMAIN B.eps : LET b == Tr(B.eps[k], was)  a == A.eps[k] IN IF Opt("upd") THEN b[1] = a[1] /\ EpRest(b) = EpRest(a) ELSE b = a, <<"entry points", B.eps, A.eps>>)
  \* ---------------------------------------------------------- what is bound is the library's
  /\ \A p \in P : Check(SameInstr(LI[p[1]], AI[p[2]], LD, AD, p \in roots \cup open), <<"transferred as", LI[p[1]], AI[p[2]], "root", p \in roots>>)
  /\ \A p \in P \ open : Check(p[1] \in DOMAIN LB => p[2] \in DOMAIN AB /\ Len(LB[p[1]]) = Len(AB[p[2]]), <<"function body", LI[p[1]], AI[p[2]]>>)
  /\ LET S == {p \in P : ~Shared(LI[p[1]][2])}  
         X == {p[1] : p \in S}  Y == {p[2] : p \in S} IN
       Check(Cardinality(S) = Cardinality(X), <<"transferred more than once", {LI[x] : x \in {y \in X : Cardinality({p \in S : p[1] = y}) > 1}}>>)
       /\ Check(Cardinality(S) = Cardinality(Y), <<"merged", {AI[x] : x \in {y \in Y : Cardinality({p \in S : p[2] = y}) > 1}}>>)
       /\ \A p \in S : Check(fresh(p) \/ p \in open \/ p[1] \in rootL \/ \E k \in typed : libOf(imps[k]) \in DOMAIN LB /\ p[1] \in ToSet(LB[libOf(imps[k])]), <<"stands for something of the consumer", LI[p[1]], AI[p[2]]>>)
  \* ---------------------------------------------------------- nothing else is new
  /\ clean => \A s \in {"srcs", "lines", "procs", "vars", "undefs"} : Check(\A i \in ToSet(newOf(A[s])) : i[1] \in imageNew, <<"new in", s, {i \in ToSet(newOf(A[s])) : i[1] \notin imageNew}>>)
  /\ clean => Check(\A i \in ToSet(newTC) : i[1] \in imageNew \cup implied \/ \E j \in ToSet(newTC) : i[1] \in RefsOf(j), <<"new type or constant that nothing needs", {i \in ToSet(newTC) : i[1] \notin imageNew \cup implied}>>)
  /\ clean => Check(\A k \in DOMAIN A.funs : A.funs[k].fn[1] \in old \cup imageNew, <<"new function">>)
  /\ Check(Len(newOf(A.modes)) = 0 /\ Len(newOf(A.eps)) = 0, <<"new execution mode or entry point">>)
  /\ \A i \in ToSet(newTC) : Check(AD[i[1]] = TY!Bad \/ TY!HasSpec(AD[i[1]]) \/ \A y \in DOMAIN AD : y = i[1] \/ AD[y] # AD[i[1]], <<"declared again", i>>)
  /\ Check(DeclaredFirst(A.tcs, [k \in DOMAIN AI |-> 1]), <<"type or constant is used before it is declared">>)
  \* ---------------------------------------------------------- every type and constant is known as what it is
  /\ \A k \in DOMAIN e.q : LET q == e.q[k]  d == AD[q[1]] IN
       d = TY!Bad \/ (IF TY!IsType(d) THEN Check(q[2] = d, <<"type known as", AI[q[1]], q[2], "is", d>>) /\ Check(q[3] # 0 /\ AD[q[3]] = d, <<"request for the type", AI[q[1]], "is answered by", q[3]>>)
                    ELSE Check(q[2] = d[2] /\ (TY!Norm(q[4]) = TY!Norm(d) \/ (TY!HasSpec(d) /\ q[4] = <<"none">>)), <<"constant known as", AI[q[1]], q[2], q[4], "is", d>>) /\ (TY!HasSpec(d) \/ Check(q[5] # 0 /\ TY!Norm(AD[q[5]]) = TY!Norm(d), <<"request for the constant", AI[q[1]], "is answered by", q[5]>>)))
  /\ LET lk == ToSet(e.lk)  known == {e.q[k][1] : k \in {x \in DOMAIN e.q : e.q[x][4] # <<"none">>}} IN \A p \in P : Check(p[1] \in lk /\ fresh(p) => p[2] \in known, <<"value of the constant is not known", AI[p[2]]>>)
  /\ Check(e.qnew = 0 \/ \E k \in DOMAIN AD : AD[k] = TY!Bad, <<"requests declare again">>)
  /\ \A k \in DOMAIN e.qv : LET q == e.qv[k]  t == AI[q[1]][3][1][2] IN t \in DOMAIN AD /\ AD[t] # TY!Bad => Check(q[2] = AD[t], <<"type of", AI[q[1]], "known as", q[2]>>)
  \* gates
  /\ Check(Opt("vars") \/ newOf(A.vars) = <<>>, <<"variables are transferred", newOf(A.vars)>>)
  /\ Check(Opt("funs") \/ \A k \in DOMAIN A.funs : A.funs[k].fn[1] \in old, <<"functions are transferred">>)
  /\ Check(Opt("extsets") \/ newOf(A.imps) = <<>>, <<"extended instruction sets are transferred">>)
  /\ Check(Opt("src") \/ (\A k \in DOMAIN newOf(A.srcs) : newOf(A.srcs)[k][2] = 7 /\ Opt("strs")), <<"sources are transferred">>)
  /\ Check(Opt("lines") \/ newOf(A.lines) = <<>>, <<"lines are transferred">>)
  /\ Check(linesFail => \A i \in ToSet(newOf(A.lines)) : i[2] # OpLine, <<"line without its file", newOf(A.lines)>>)
  /\ Check(Opt("procs") \/ newOf(A.procs) = <<>>, <<"OpModuleProcessed is transferred">>)
  /\ Check(~Opt("src") \/ Len(newOf(A.srcs)) >= Len(L.srcs), <<"sources are missing">>)
  /\ Check(~Opt("lines") \/ linesFail \/ Len(newOf(A.lines)) = Len(L.lines), <<"lines are missing">>)
  /\ Check(~Opt("procs") \/ Len(newOf(A.procs)) = Len(L.procs), <<"OpModuleProcessed is missing">>)
  \* ---------------------------------------------------------- names and decorations
  /\ LET nw == Plain(newOf(A.names))
         of(s, t) == SelectSeq(s, LAMBDA i : i[3][1][2] = t)
         want(p) == LET s == of(L.names, p[1]) IN [k \in DOMAIN s |-> Note(s[k], p[2])]
         have(t) == SelectSeq(nw, LAMBDA i : i[2] = <<t>>) IN
       IF ~Opt("names") THEN Check(nw = <<>>, <<"names are transferred", nw>>)
       ELSE /\ \A p \in P : Check(\A x \in ToSet(have(p[2])) : \E q \in {r \in P : r[2] = p[2]} : x \in ToSet(want(q)), <<"name that the library does not have", have(p[2]), want(p)>>)
            /\ \A p \in P : fresh(p) => Check(BagEq(have(p[2]), want(p)), <<"names of", LI[p[1]], AI[p[2]], have(p[2]), "wanted", want(p)>>)
            /\ clean => Check(\A k \in DOMAIN nw : nw[k][2][1] \in about, <<"names of what is not transferred", nw>>)
  /\ LET nw == Plain(newOf(A.decs))
         libdecs == SelectSeq(L.decs, LAMBDA i : ~IsLinkage(i) \/ (LinkKind(i) = Import /\ LinkTarget(i) \notin rootL))
         of(s, t) == SelectSeq(s, LAMBDA i : i[3][1][2] = t)
         want(p) == LET s == of(libdecs, p[1]) IN [k \in DOMAIN s |-> Note(s[k], p[2])]
         have(t) == SelectSeq(nw, LAMBDA i : i[2] = <<t>>) IN
       IF ~Opt("decos") THEN Check(nw = <<>>, <<"decorations are transferred", nw>>)
       ELSE /\ \A p \in P : Check(\A x \in ToSet(have(p[2])) : \E q \in {r \in P : r[2] = p[2]} : x \in ToSet(want(q)), <<"decoration that the library does not have", have(p[2]), want(p)>>)
            /\ \A p \in P \ open : fresh(p) \/ ~Shared(LI[p[1]][2]) => Check(BagEq(have(p[2]), want(p)), <<"decorations of", LI[p[1]], AI[p[2]], have(p[2]), "wanted", want(p)>>)
            /\ clean => Check(\A k \in DOMAIN nw : nw[k][2][1] \in about, <<"decorations of what is not transferred", nw>>)
  \* ---------------------------------------------------------- capabilities, extensions, version
  /\ LET want == CapSet(B) \cup (CapSet(L) \ {5})  keep == ~(Opt("rmlink") /\ links = 0)
         w2 == IF keep THEN want ELSE want \ {5} IN
       IF Opt("auto") THEN Check((IF keep THEN CapSet(B) ELSE CapSet(B) \ {5}) \subseteq CapSet(A) /\ (keep \/ 5 \notin CapSet(A)), <<"capabilities", CapSet(B), CapSet(A), "linkage goes", ~keep>>) /\ Check(e.settled, <<"required capabilities or extensions are missing">>)
       ELSE Check(CapSet(A) = w2, <<"capabilities", CapSet(A), "wanted", w2>>)
  /\ IF Opt("auto") THEN Check(ext(B) \subseteq ext(A), <<"extensions">>) ELSE Check(ext(A) = ext(B) \cup ext(L), <<"extensions", ext(A)>>)
  /\ Check(Cardinality(CapSet(A)) = Len(A.caps) /\ Cardinality(ext(A)) = Len(A.exts) /\ Cardinality(StrSet(A.imps, 2)) = Len(A.imps), <<"declared twice">>)
  /\ IF Opt("auto") THEN Check(Newer(A.ver, L.ver) = A.ver, <<"version", A.ver>>) ELSE Check(A.ver = Newer(B.ver, L.ver), <<"version", A.ver, B.ver, L.ver>>)
  \* ---------------------------------------------------------- ids
  /\ LET ids == Ids(A)  P1 == SelectSeq(ids, LAMBDA x : x > 0)  bids == Ids(B) IN
       /\ Check(\A k \in DOMAIN was : was[k] = 0 \/ bids[k] <= 0 \/ ids[was[k]] = bids[k], <<"ids of the consumer changed">>)
       /\ Check(Cardinality(ToSet(P1)) = Len(P1), <<"ids are not distinct">>)
       /\ Opt("ids") /\ clean => Check(\A k \in DOMAIN ids : ids[k] # -1 \/ k \in old, <<"no id was assigned to", {AI[k] : k \in {x \in DOMAIN ids : ids[x] = -1 /\ x \notin old}}>>)
       /\ Opt("ids") => Check(\A k \in DOMAIN P1 : P1[k] < A.bound[1] * 65536 + A.bound[2], <<"bound", A.bound>>)
       /\ ~Opt("ids") => Check(\A k \in DOMAIN ids : ids[k] <= 0 \/ k \in old, <<"ids were assigned">>)
  \* ---------------------------------------------------------- interfaces
  /\ Opt("upd") =>
       LET V == ModuleVars(A)
           storage == [v \in V |-> AI[v][3][3][3]]
           F == DOMAIN AB
           calls == [f \in F |-> {AI[n][3][3][2] : n \in {x \in ToSet(AB[f]) : AI[x][2] = 57}} \cap F]
           uses == [f \in F |-> UNION {RefsOf(AI[n]) : n \in ToSet(AB[f])} \cap V] IN
       \A k \in DOMAIN A.eps : LET io == EpIo(A.eps[k])  want == Wanted(A.eps[k][3][2][2], calls, uses, storage, Minor(A)) IN
         Check({io[x][2] : x \in DOMAIN io} = want /\ Len(io) = Cardinality(want), <<"interface of entry point", k, io, "wanted", want>>)

\* a function loses its body: nothing is left of it, the rest stays
Emptied ==
  e.ev = "body" /\
  LET B == e.B  A == e.A  was == e.was  BI == All(B)  BB == Bodies(B)
      f == B.funs[CHOOSE k \in DOMAIN B.funs : B.funs[k].fn[1] = e.x]
      own == UNION {{f.bbs[k].lab[1]} \cup {f.bbs[k].ins[x][1] : x \in DOMAIN f.bbs[k].ins} : k \in DOMAIN f.bbs}
      about(i) == RefsOf(i) \cap own # {}
      keep(s) == TrSeq(SelectSeq(s, LAMBDA i : ~about(i)), was) IN
  /\ Check(e.ok, <<"removeFunctionBody">>)
  /\ \A s \in {"caps", "exts", "imps"} : Check({Tr(i, was) : i \in ToSet(B[s])} = ToSet(A[s]), <<"changed", s>>)
  /\ \A s \in {"names", "decs", "eps", "modes", "srcs", "procs", "tcs", "vars", "undefs", "lines"} : SameSeq(keep(B[s]), A[s], <<"changed", s>>)
  /\ Check(Len(A.funs) = Len(B.funs) /\ \A k \in DOMAIN B.funs : LET g == B.funs[k] IN
        TrSeq(FunInstrs(IF g.fn[1] = e.x THEN [g EXCEPT !.bbs = <<>>] ELSE g), was) = FunInstrs(A.funs[k]), <<"functions">>)
\* linkage decorations for variables a function mentions (through calls): exactly those with a name
Marked ==
  e.ev = "mark" /\
  LET B == e.B  A == e.A  was == e.was  AI == All(A)  AB == Bodies(A)  V == ModuleVars(A)
      new == Added(A.decs, Old(was))
      F == DOMAIN AB
      calls == [f \in F |-> {AI[n][3][3][2] : n \in {x \in ToSet(AB[f]) : AI[x][2] = 57}} \cap F]
      uses == [f \in F |-> UNION {RefsOf(AI[n]) : n \in ToSet(AB[f])} \cap V]
      want == IF e.op = "one" THEN {was[e.x]} ELSE Mentioned(was[e.x], calls, uses)
      namesOf(v) == {StrOf(LitsFrom(i, 2)) : i \in {x \in ToSet(A.names) : x[2] = 5 /\ x[3][1][2] = v}}
      named == {v \in want : namesOf(v) # {}} IN
  /\ SameSeq(TrSeq(B.decs, was), Kept(A.decs, Old(was)), "decorations")
  /\ Check(\A k \in DOMAIN new : IsLinkage(new[k]) /\ LinkKind(new[k]) = e.kind, <<"not a linkage decoration", new>>)
  /\ IF e.op = "one" THEN Check(e.ok /\ Len(new) = 1 /\ LinkTarget(new[1]) = was[e.x] /\ LinkName(new[1]) = e.name, <<"linkage decoration", new>>)
     ELSE /\ Check({LinkTarget(new[k]) : k \in DOMAIN new} = named /\ Len(new) = Cardinality(named), <<"linkage for", new, "wanted", named>>)
          /\ Check(\A k \in DOMAIN new : LinkName(new[k]) \in namesOf(LinkTarget(new[k])), <<"linkage name", new>>)
          /\ Check(e.ok = (named = want), <<"returned", e.ok>>)
\* what a decoration says
Asked ==
  e.ev = "ask" /\
  LET i == e.i  is == IsLinkage(i) IN
  Check(IF is THEN e.kind = LinkKind(i) /\ e.sym = LinkTarget(i) /\ e.name = LinkName(i) ELSE e.kind = -1, <<"linkage of", i, e.kind, e.sym, e.name>>)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Linked \/ Emptied \/ Marked \/ Asked)
TraceSpec == TraceInit /\ [][TraceNext]_l
================================================================================
