----------------------------- MODULE Trace_Callables ---------------------------
(* st: one step, with what calling gave, which places say they can be called, the   *)
(* functors alive and the blocks the allocators have out.  log: one message to a     *)
(* logger; flag, alg: one operation on flags and containers.                          *)
EXTENDS Callables, TraceBase
VARIABLES l, p, sh, cb, filter, q
tvars == <<l, p, sh, cb, filter, q>>
e == Trace[l]
SetOf(s) == {s[k] : k \in DOMAIN s}
Begin == e.ev = "begin" /\ p' = [s \in 1..e.n |-> Cell("free")] /\ sh' = [t \in 1..9 |-> 0] /\ q' = [s \in 1..e.n |-> <<>>] /\ UNCHANGED <<cb, filter>>
After(o) ==
  CASE o = "empty" -> PEmpty(p, e.s, e.a) [] o = "make" -> PMake(p, e.s, Fun(e.kind, e.tag), e.a) [] o \in {"copy", "assign"} -> PCopy(p, e.s, e.d)
    [] o \in {"move", "massign"} -> PMove(p, e.s, e.d) [] o = "set" -> PSet(p, e.s, Fun(e.kind, e.tag)) [] o = "reset" -> PReset(p, e.s) [] o = "call" -> PCall(p, e.s) [] o = "del" -> PDelete(p, e.s)
Step ==
  e.ev = "st" /\ UNCHANGED <<cb, filter, q>> /\
  LET z == After(e.op) IN
  /\ p' = z
  /\ sh' = IF e.op = "call" THEN SCall(sh, p[e.s].f) ELSE sh
  /\ (e.op = "call" =>
        /\ Check(p[e.s].k = "hold", <<"driver: called an empty place">>)
        /\ Check(e.r = Result(p[e.s].f, sh, e.x), <<"calling", p[e.s].f, "with", e.x, "gave", e.r>>)
        /\ Check(e.x1 = e.x0 + e.ref, <<"argument by reference was", e.x0, "is", e.x1>>))
  /\ Check(\A s \in DOMAIN z : e.can[s] = (z[s].k = "hold"), <<e.op, "places that can be called", e.can, "wanted", [s \in DOMAIN z |-> z[s].k]>>)
  /\ Check(e.alive = Alive(z), <<e.op, "functors alive", e.alive, "wanted", Alive(z)>>)
  /\ (e.counted => Check((Blocks(z, 1) = 0 => e.out1 = 0) /\ (Blocks(z, 2) = 0 => e.out2 = 0), <<e.op, "blocks out of allocators that nothing is held from", e.out1, e.out2>>))
  /\ Check(e.bad = 0, <<e.op, "memory returned wrongly", e.bad>>)
Logger == e.ev = "logger" /\ cb' = e.cb /\ filter' = SetOf(e.filter) /\ UNCHANGED <<p, sh, q>>
LogMsg ==
  e.ev = "log" /\ UNCHANGED <<p, sh, cb, filter, q>> /\
  LET t == Told(cb, filter, SetOf(e.level)) IN
  IF t = {} THEN Check(e.got = <<>>, <<"message of level", e.level, "passed filter", filter, "callback", cb>>)
  ELSE /\ Check(Len(e.got) = 1, <<"message of level", e.level, "was passed on", Len(e.got), "times, filter", filter>>)
       /\ LET g == e.got[1] IN
          /\ Check(g.cb = cb, <<"another callback was called">>) /\ Check(g.me, <<"callback was given another logger">>)
          /\ Check(SetOf(g.level) = t, <<"level", g.level, "wanted", t>>) /\ Check(g.text = e.text, <<"text", g.text, "wanted", e.text>>)
\* the console: the level's name, the text and a line end
Console ==
  e.ev = "con" /\ UNCHANGED <<p, sh, cb, filter, q>> /\
  LET t == Told(1, SetOf(e.filter), SetOf(e.level)) IN
  IF t = {} THEN Check(e.silent, <<"console: level", e.level, "passed filter", e.filter>>)
  ELSE Check(e.tail /\ e.pre = LevelName(t), <<"console: level", e.level, "filter", e.filter, "printed", e.pre, e.tail>>)
FlagOp ==
  e.ev = "flag" /\ UNCHANGED <<p, sh, cb, filter, q>> /\
  LET a == SetOf(e.a)  b == SetOf(e.b)
      want == CASE e.op = "or" -> Either(a, b) [] e.op = "and" -> Both(a, b) [] e.op = "xor" -> One(a, b) [] e.op = "par" -> Parity(a, e.more) IN
  /\ Check(SetOf(e.r) = want, <<e.op, e.how, a, b, "gave", e.r>>)
  /\ Check(e.any = (want \cap b # {}) /\ e.none = (want \cap b = {}) /\ e.all = (b \subseteq want), <<"any, none, all", e.any, e.none, e.all, "of", b, "in", want>>)
  /\ Check(e.empty = (want = {}) /\ e.yes = (want # {}), <<"empty", e.empty, "true", e.yes, "for", want>>)
Alg ==
  e.ev = "alg" /\ UNCHANGED <<p, sh, cb, filter, q>> /\
  LET P(x) == x % e.m = e.k IN
  /\ Check(e.any = (\E k \in DOMAIN e.v : P(e.v[k])), <<"any", e.v, e.m, e.k, "gave", e.any>>)
  /\ Check(e.all = (\A k \in DOMAIN e.v : P(e.v[k])), <<"all", e.v, e.m, e.k, "gave", e.all>>)
  /\ Check(e.out = [k \in DOMAIN e.v |-> e.v[k] * e.m + e.k], <<"transform", e.v, e.m, e.k, "gave", e.out>>)
  /\ Check(e.same, <<"the result of transform belongs to another allocator">>)
Variadic ==
  e.ev = "var" /\ UNCHANGED <<p, sh, cb, filter, q>> /\
  Check(e.heard = e.args /\ e.r = e.tag * 1000 + Sum(e.args), <<"variadic function", e.tag, e.args, "heard", e.heard, "gave", e.r>>)
Heaped ==
  e.ev = "seq" /\ UNCHANGED <<p, sh, cb, filter>> /\
  LET z == QStep(q, e.op, e.s, e.d, e.v) IN
  /\ q' = z
  /\ Check(e.see = z, <<e.what, e.op, e.s, e.d, "gave", e.see, "wanted", z>>)
  /\ Check(e.same, <<e.what, e.op, "answered with another object or left the heap">>)
TraceInit == l = 1 /\ p = <<>> /\ sh = <<>> /\ cb = 0 /\ filter = {} /\ q = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Step \/ Logger \/ LogMsg \/ FlagOp \/ Alg \/ Variadic \/ Heaped \/ Console)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
================================================================================
