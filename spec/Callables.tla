-------------------------------- MODULE Callables -------------------------------
(* Places that hold callables.  A place is free, holds a callable without (void)  *)
(* or with (none) an allocator but nothing to call, or one with a functor.        *)
(* Functors: obj and big count their own calls, mem calls a member function of a   *)
(* shared object that counts its calls, fn is a free function.                     *)
EXTENDS Integers, Sequences, FiniteSets
NoF == [kind |-> "no", tag |-> 0, n |-> 0]
Cell(k) == [k |-> k, f |-> NoF, a |-> 0]
Fun(kind, tag) == [kind |-> kind, tag |-> tag, n |-> 0]
Holding(f, a) == [k |-> "hold", f |-> f, a |-> a]
Own(f) == f.kind \in {"obj", "big"}
\* effects on places p; a: the allocator
PEmpty(p, s, a) == [p EXCEPT ![s] = IF a = 0 THEN Cell("void") ELSE [Cell("none") EXCEPT !.a = a]]
PMake(p, s, f, a) == [p EXCEPT ![s] = Holding(f, a)]
PCopy(p, s, d) == [p EXCEPT ![d] = p[s]]
PMove(p, s, d) == [p EXCEPT ![d] = p[s], ![s] = Cell("void")]
PSet(p, s, f) == [p EXCEPT ![s] = Holding(f, p[s].a)]
PReset(p, s) == IF p[s].k = "hold" THEN [p EXCEPT ![s] = [Cell("none") EXCEPT !.a = p[s].a]] ELSE p
PCall(p, s) == IF Own(p[s].f) THEN [p EXCEPT ![s].f.n = @ + 1] ELSE p
PDelete(p, s) == [p EXCEPT ![s] = Cell("free")]
\* calls counted by the shared objects
SCall(sh, f) == IF f.kind = "mem" THEN [sh EXCEPT ![f.tag] = @ + 1] ELSE sh
\* what calling gives; every argument passed by reference is one more afterwards
Result(f, sh, x) ==
  CASE f.kind = "obj" -> f.tag * 10000 + (f.n + 1) * 100 + x
    [] f.kind = "big" -> f.tag * 20000 + (f.n + 1) * 100 + x
    [] f.kind = "mem" -> f.tag * 30000 + (sh[f.tag] + 1) * 100 + x
    [] f.kind = "fn" -> f.tag * 40000 + x
\* functors alive, and blocks taken from allocator a
Alive(p) == Cardinality({s \in DOMAIN p : p[s].k = "hold" /\ Own(p[s].f)})
Blocks(p, a) == Cardinality({s \in DOMAIN p : p[s].k = "hold" /\ p[s].a = a})
\* containers of the heap: places with sequences
QStep(q, op, s, d, v) ==
  CASE op = "new" -> [q EXCEPT ![s] = v] [] op \in {"copy", "assign"} -> [q EXCEPT ![d] = q[s]]
    [] op \in {"move", "massign"} -> [q EXCEPT ![d] = q[s], ![s] = <<>>] [] op = "push" -> [q EXCEPT ![s] = @ \o v] [] op = "del" -> [q EXCEPT ![s] = <<>>]
RECURSIVE Sum(_)
Sum(v) == IF v = <<>> THEN 0 ELSE Head(v) + Sum(Tail(v))
\* ------------------------------------------------------------------- flags
Both(a, b) == a \cap b
Either(a, b) == a \cup b
One(a, b) == (a \ b) \cup (b \ a)
RECURSIVE Parity(_, _)
Parity(a, s) == IF s = <<>> THEN a ELSE Parity(One(a, {Head(s)[k] : k \in DOMAIN Head(s)}), Tail(s))
\* ------------------------------------------------------------------- loggers
\* what the callback is told: nothing, or the part of the level the filter lets through
LevelName(t) == CASE t = {0} -> "Debug: " [] t = {1} -> "Info: " [] t = {2} -> "Warning: " [] t = {3} -> "Error: " [] t = {4} -> "Fatal: " [] OTHER -> ""
Told(cb, filter, level) == IF cb = 0 THEN {} ELSE level \cap filter
================================================================================
