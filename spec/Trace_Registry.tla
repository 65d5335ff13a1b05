---------------------------- MODULE Trace_Registry ----------------------------
(* recorded answers of the tables the library ships *)
EXTENDS Registry, TraceBase
VARIABLE l
e == Trace[l]
TraceInit == l = 1
OpEntry(x, r) ==
  IF ~Listed(x, r[1]) THEN Check(~r[2], <<"an opcode that does not exist is known", x, r>>)
  ELSE LET o == Entry(x, r[1])  d == r[3] IN
  /\ Check(r[2], <<"opcode is not known", x, r[1], o.n>>)
  /\ Check(d.name = o.n, <<"name of opcode", x, r[1], d.name, "expected", o.n>>)
  /\ Check(d.ops = Operands(x, r[1]), <<"operands of", o.n, d.ops, "expected", Operands(x, r[1])>>)
  /\ Check(ToSet(d.caps) = ToSet(o.caps), <<"capabilities of", o.n, d.caps, "expected", o.caps>>)
  /\ x = 0 =>
     /\ Check(ToSet(d.exts) = ToSet(o.exts), <<"extensions of", o.n, d.exts, "expected", o.exts>>)
     /\ Check(d.ver = o.ver, <<"version of", o.n, d.ver, "expected", o.ver>>)
     /\ Check(d.res = <<o.res, o.type, o.res, o.type, o.res /\ o.type>>, <<"result and type of", o.n, d.res>>)
     /\ Check(d.is = <<IsType(r[1]), IsConst(r[1]), IsTerm(r[1])>>, <<"type, constant or terminator", o.n, d.is, "expected", <<IsType(r[1]), IsConst(r[1]), IsTerm(r[1])>>>>)
     /\ Check(NoClaim(r[1]) \/ d.out = Outside(r[1]), <<"outside of blocks", o.n, d.out>>)
Ops == e.ev = "ops" /\ \A i \in DOMAIN e.ops : OpEntry(e.ext, e.ops[i])
Kind ==
  /\ e.ev = "kind"
  /\ LET V == Vals(e.kind)  Names == {<<V[i].v, V[i].n>> : i \in DOMAIN V}  Ps == {<<V[i].v, V[i].p>> : i \in {j \in DOMAIN V : V[j].p # <<>>}}  n == G.kinds[e.kind + 1].n IN
     /\ Check(ToSet(e.names) = Names, <<"enumerants of", n, "only in the library", ToSet(e.names) \ Names, "only in the registry", Names \ ToSet(e.names)>>)
     /\ Check(ToSet(e.params) = Ps, <<"parameters of enumerants of", n, "only in the library", ToSet(e.params) \ Ps, "only in the registry", Ps \ ToSet(e.params)>>)
     /\ Check(e.has = (Ps # {}), <<"kind has parameters", n, e.has>>)
     /\ Check(e.bases = G.kinds[e.kind + 1].bases, <<"bases of", n, e.bases>>)
Enums == e.ev = "enums" /\ \A i \in DOMAIN e.e : LET x == e.e[i] IN Check(\E v \in ToSet(Vals(x[1])) : v.n = x[2] /\ v.v = x[3], <<"value of enumerator", G.kinds[x[1] + 1].n, x[2], x[3]>>)
OpEnums == e.ev = "opcodes" /\ \A i \in DOMAIN e.e : LET x == e.e[i] IN Check(Listed(x[1], x[3]) /\ Entry(x[1], x[3]).n = x[2], <<"value of opcode enumerator", x>>)
Walk ==
  /\ e.ev = "walk"
  /\ \A i \in DOMAIN e.kinds : Check(OfKind(e.op, e.w, e.kinds[i][1]) = e.kinds[i][2], <<"operand of kind", G.kinds[e.kinds[i][1] + 1].n, "of", Op(e.op).n, e.w, "found at", e.kinds[i][2], "expected", OfKind(e.op, e.w, e.kinds[i][1])>>)
  /\ \A i \in DOMAIN e.names : Check(Named(e.op, e.w, e.names[i][1]) = e.names[i][2], <<"operand named", e.names[i][1], "of", Op(e.op).n, e.w, "found at", e.names[i][2], "expected", Named(e.op, e.w, e.names[i][1])>>)
\* first word of an instruction, version and generator words: put together and taken apart
Pack == e.ev = "pack" /\ Check(e.op = <<e.a[2], e.a[1]>> /\ e.gotop = e.a, <<"opcode word", e>>) /\ Check(e.ver = <<e.v[1], e.v[2] * 256>> /\ e.gotver = e.v, <<"version word", e>>) /\ Check(e.gen = e.g /\ e.gotgen = e.g, <<"generator word", e>>)
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Ops \/ Kind \/ Enums \/ OpEnums \/ Walk \/ Pack)
TraceSpec == TraceInit /\ [][TraceNext]_l
===============================================================================
