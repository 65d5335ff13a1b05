---------------------------- MODULE Trace_Arrays -----------------------------
EXTENDS Arrays, TraceBase
VARIABLE l
tvars == <<seqs, l>>
e == Trace[l]
x == e.l
One(p, s) == /\ Check(p.f = s, <<"contents", p, s>>)
             /\ Check(p.n = Len(s), <<"size", p.n, s>>)
             /\ Check(p.e = (s = <<>>) \/ e.kind = "str", <<"empty", s>>)
             /\ Check(p.cap >= Len(s), "capacity below size")
             /\ s # <<>> => Check(p.h = s[1] /\ p.t = s[Len(s)], <<"front/back", p, s>>)
             /\ (e.kind = "str" /\ s # <<>>) => Check(p.z, "terminator")
Observed == /\ One(e.a, seqs'["a"]) /\ One(e.b, seqs'["b"])
            /\ Check(e.kind = "str" \/ e.live = Len(seqs'["a"]) + Len(seqs'["b"]), <<"live elements", e.live>>)
            /\ Check(e.bad = 0, "element lifetime or storage accounting")
            /\ e.kind = "str" => Check(e.eq = (seqs'["a"] = seqs'["b"]) /\ (e.eq => e.hasheq), <<"equality", e.eq, e.hasheq>>)
Inserted == /\ Insert(x, e.i, e.t)
            /\ (e.t # <<>> \/ ~InsertOk(x, e.i)) => Check(e.ret = IF InsertOk(x, e.i) THEN InsertPos(x, e.i) ELSE -1, <<"insert returns", e.ret>>)
Step ==
  \/ e.op = "eb" /\ PushBack(x, e.t[1]) /\ Check(e.ret = e.t[1], "ret")
  \/ e.op = "ea" /\ AppendAll(x, e.t)
  \/ e.op = "in" /\ Inserted
  \/ e.op = "eo" /\ PushOwn(x, e.i) /\ Check(e.ret = Own(x, e.i), "ret")
  \/ e.op = "no" /\ InsertOwn(x, e.i, e.own, e.n) /\ Check(e.ret = IF InsertOk(x, e.i) THEN InsertPos(x, e.i) ELSE -1, <<"insert returns", e.ret>>)
  \/ e.op = "ro" /\ ResizeOwn(x, e.n, e.i) /\ Check(e.ret = 1, "resize fails")
  \/ e.op = "so" /\ AppendOwn(x, 0)
  \/ e.op = "ao" /\ AppendOwn(x, e.i)
  \/ e.op = "io" /\ Insert(x, e.i, seqs[Other(x)])
  \/ e.op = "rs" /\ Resize(x, e.n, e.t[1]) /\ Check(e.ret = 1, "resize fails")
  \/ e.op = "rv" /\ Keep /\ Check(e.ret = 1 /\ e[x].cap >= e.n, "reserve fails")
  \/ e.op = "fl" /\ Fill(x, e.i, e.n, e.t[1])
  \/ e.op \in {"aa", "as"} /\ Assign(x, e.t)
  \/ e.op = "st" /\ Store(x, e.i, e.t[1])
  \/ e.op = "cl" /\ Clear(x)
  \/ e.op = "ca" /\ CopyAssign(x)
  \/ e.op = "ma" /\ MoveAssign(x)
  \/ e.op = "sa" /\ Keep
  \/ e.op = "cc" /\ Keep /\ Check(e.copy = seqs[x], <<"copy", e.copy>>)
  \/ e.op \in {"ap", "al"} /\ AppendAll(x, e.t)
  \/ e.op = "pe" /\ AppendAll(x, seqs[Other(x)])
  \/ e.op = "pl" /\ Concat(x, seqs[x])
  \/ e.op = "pc" /\ Concat(x, e.t)
  \/ e.op = "su" /\ Keep /\ Check(e.copy = SubStr(seqs[x], e.i, e.n), <<"substr", e.copy, SubStr(seqs[x], e.i, e.n)>>)
  \/ e.op = "eq" /\ Keep /\ Check((e.ret = 1) = (seqs[x] = e.t), <<"compare", e.ret>>)
TraceInit == AInit /\ l = 1
Reset == e.ev = "reset" /\ seqs' = [k \in Names |-> <<>>]
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ \/ Reset
                \/ e.ev = "op" /\ Step /\ Observed
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
