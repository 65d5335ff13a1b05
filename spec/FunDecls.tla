----------------------------- MODULE FunDecls --------------------------------
(* Functions under construction.  State F: sequence of functions               *)
(*   [ret, ps, sg (parameter types of the signature), fin, ctrl, name (bytes or <<-1>>), model (-1: no entry point),   *)
(*    blocks (sequence of item sequences), vars]                                *)
(* and M: execution modes requested.  Steps are tuples; Legal says which are    *)
(* answered, Effect what they do, FnOk/ModOk what the module then looks like.   *)
EXTENDS Types
L == INSTANCE Literals
Void == <<"Void">>
Unnamed == <<-1>>
Fresh(ep) == [ret |-> Void, ps |-> <<>>, sg |-> <<>>, fin |-> FALSE, ctrl |-> 0, name |-> Unnamed, model |-> IF ep THEN -2 ELSE -1, blocks |-> <<>>, vars |-> {}]
FnOf(s) == s[2]
\* can the step be phrased at all (its subject exists and is in the right phase)
Enabled(F, s) ==
  CASE s[1] \in {"fun", "full"} -> TRUE
    [] s[1] \in {"ret", "param", "type", "fin"} -> s[2] \in DOMAIN F /\ ~F[s[2]].fin
    [] s[1] = "block" -> s[2] \in DOMAIN F
    [] s[1] = "var" -> s[2] \in DOMAIN F
    [] s[1] = "mode" -> s[2] \in DOMAIN F /\ F[s[2]].fin
    [] s[1] = "call" -> s[2] \in DOMAIN F /\ s[3] \in DOMAIN F[s[2]].blocks /\ s[4] \in DOMAIN F /\ F[s[4]].fin
    [] s[1] \in {"badcall", "retv"} -> s[2] \in DOMAIN F /\ s[3] \in DOMAIN F[s[2]].blocks
    [] OTHER -> FALSE
Legal(F, s) ==
  CASE s[1] = "param" -> s[3] # Void
    [] s[1] = "type" -> s[3][1] = "Fun"
    [] s[1] = "retv" -> s[4] = F[s[2]].ret
    [] s[1] = "badcall" -> FALSE
    [] OTHER -> TRUE
Put(F, f, b, item) == [F EXCEPT ![f].blocks[b] = Append(@, item)]
\* r: what the implementation answered: node, args, init
Effect(F, s, r) ==
  IF ~Legal(F, s) THEN F
  ELSE CASE s[1] = "fun" -> Append(F, Fresh(s[2] = 1))
    [] s[1] = "full" -> Append(F, [Fresh(FALSE) EXCEPT !.ret = s[2], !.ps = s[3], !.sg = s[3], !.fin = TRUE, !.ctrl = s[4], !.name = s[5], !.model = s[6], !.blocks = IF s[7] = 1 THEN <<<<>>>> ELSE <<>>])
    [] s[1] = "ret" -> [F EXCEPT ![s[2]].ret = s[3]]
    [] s[1] = "param" -> [F EXCEPT ![s[2]].ps = Append(@, s[3]), ![s[2]].sg = Append(@, s[3])]
    \* the signature as a whole: the parameters are declared as they were
    [] s[1] = "type" -> [F EXCEPT ![s[2]].ret = s[3][2][1], ![s[2]].sg = Tail(s[3][2])]
    [] s[1] = "fin" -> [F EXCEPT ![s[2]].fin = TRUE, ![s[2]].ctrl = s[3], ![s[2]].name = s[4], ![s[2]].model = IF @ = -1 THEN -1 ELSE s[5]]
    [] s[1] = "block" -> [F EXCEPT ![s[2]].blocks = Append(@, <<>>)]
    [] s[1] = "var" -> [F EXCEPT ![s[2]].vars = @ \cup {<<r.node, s[3], r.init>>}, ![s[2]].blocks = IF @ = <<>> THEN <<<<>>>> ELSE @]
    [] s[1] = "call" -> Put(F, s[2], s[3], <<57, r.node, F[s[4]].ret, r.args>>)
    [] s[1] = "retv" -> Put(F, s[2], s[3], IF s[4] = Void THEN <<253, r.node, Void, <<>>>> ELSE <<254, r.node, Void, r.args>>)
    [] OTHER -> F

------------------------------------------------------------------------------
Lit16(n) == <<"l", n \div 65536, n % 65536>>
NameOps(c) == LET w == L!StrWords(c) IN [k \in DOMAIN w |-> <<"l", w[k][1], w[k][2]>>]
IsId(o) == o[1] = "d"
IRef(n) == <<"i", n>>
\* a body instruction i (operands of instructions that are referred to by number)
ItemOk(D, i, w) ==
  /\ i[2] = w[1] /\ i[1] = w[2]
  /\ CASE w[1] = 57 -> Len(i[3]) = 2 + Len(w[4]) /\ Get(D, i[3][1]) = w[3] /\ IsId(i[3][2]) /\ \A k \in DOMAIN w[4] : i[3][2 + k] = IRef(w[4][k])
       [] w[1] = 253 -> i[3] = <<>>
       [] w[1] = 254 -> i[3] = <<IRef(w[4][1])>>
VarOk(D, i, v) == i[1] = v[1] /\ i[2] = 59 /\ Len(i[3]) = (IF v[3] = 0 THEN 3 ELSE 4) /\ Get(D, i[3][1]) = <<"Ptr", 7, v[2]>> /\ IsId(i[3][2]) /\ i[3][3] = Lit16(7) /\ (v[3] # 0 => i[3][4] = IRef(v[3]))
Nop(i) == i[2] = 0
BlockOk(D, o, items, vars) ==
  LET is == SelectSeq(o.ins, LAMBDA i : ~Nop(i))  nv == Cardinality(vars) IN
  /\ o.lab[2] = 248
  /\ Len(is) = nv + Len(items)
  /\ \A v \in vars : \E k \in 1..nv : VarOk(D, is[k], v)
  /\ \A k \in DOMAIN items : ItemOk(D, is[nv + k], items[k])
SigOf(f) == <<"Fun", <<f.ret>> \o f.sg>>
HeadOk(D, o, f, fn) ==
  /\ o.fn[1] = fn /\ o.fn[2] = 54 /\ Len(o.fn[3]) = 4
  /\ Get(D, o.fn[3][1]) = f.ret /\ IsId(o.fn[3][2]) /\ o.fn[3][3] = Lit16(f.ctrl) /\ Get(D, o.fn[3][4]) = SigOf(f)
ParamsOk(D, o, f) == Len(o.ps) = Len(f.ps) /\ \A k \in DOMAIN f.ps : o.ps[k][2] = 55 /\ Len(o.ps[k][3]) = 2 /\ Get(D, o.ps[k][3][1]) = f.ps[k] /\ IsId(o.ps[k][3][2])
BodyOk(D, o, f) == Len(o.bbs) = Len(f.blocks) /\ \A k \in DOMAIN f.blocks : BlockOk(D, o.bbs[k], f.blocks[k], IF k = 1 THEN f.vars ELSE {})
EntryOk(o, f, fn, eps) ==
  IF f.model = -1 THEN o.ep = <<>>
  ELSE Len(o.ep) = 1 /\ \E k \in DOMAIN eps : eps[k][1] = o.ep[1] /\ (f.fin => eps[k][2] = 15 /\ eps[k][3] = <<Lit16(f.model), IRef(fn)>> \o NameOps(f.name))
NamesOk(f, fn, names) ==
  LET N == SelectSeq(names, LAMBDA i : i[3][1] = IRef(fn)) IN
  IF f.name = Unnamed \/ ~f.fin THEN N = <<>> ELSE Len(N) = 1 /\ N[1][2] = 5 /\ N[1][3] = <<IRef(fn)>> \o NameOps(f.name)
\* what the accessors of a function report
AccOk(a, f) == a.ret = f.ret /\ a.sig = SigOf(f) /\ a.nparams = Len(f.ps) /\ a.params /\ a.final = (f.fin /\ Len(f.sg) = Len(f.ps)) /\ (f.fin => a.ctrl = f.ctrl) /\ a.ep = (f.model # -1)
               /\ (f.fin /\ f.name # Unnamed => a.name = f.name) /\ (f.fin /\ f.model >= 0 => a.epname = f.name /\ a.model = f.model)
=============================================================================
