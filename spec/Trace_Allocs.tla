------------------------------ MODULE Trace_Allocs -------------------------------
(* op: one operation on the library with everything its allocators were asked for;  *)
(* elsewhere: memory the library took from the process heap itself.                 *)
EXTENDS Allocs, TraceBase
VARIABLES l, out, cap, base, cur, bs
tvars == <<l, out, cap, base, cur, bs>>
e == Trace[l]
SetOf(s) == {s[k] : k \in DOMAIN s}
Begin == e.ev = "begin" /\ out' = {} /\ UNCHANGED <<cap, base, cur, bs>>
Op ==
  e.ev = "op" /\ UNCHANGED <<cap, base, cur, bs>> /\
  LET t == SetOf(e.taken) IN
  /\ Check(MayReturn(out, t, e.back), <<e.what, "returned what was not out (allocator, block, size):", {e.back[k] : k \in {x \in DOMAIN e.back : e.back[x] \notin out \cup t}}>>)
  /\ Check(e.elsewhere = 0, <<e.what, "took memory from elsewhere", e.elsewhere, e.from>>)
  /\ out' = OutAfter(out, t, e.back)
End == e.ev = "end" /\ Check(out = {}, <<"never returned", Cardinality(out), "blocks, e.g.", IF out = {} THEN <<>> ELSE CHOOSE x \in out : TRUE>>) /\ UNCHANGED <<out, cap, base, cur, bs>>
Buf == e.ev = "buf" /\ cap' = e.cap /\ base' = e.base /\ cur' = 0 /\ bs' = {} /\ out' = {}
Take ==
  e.ev = "take" /\ UNCHANGED <<out, cap, base>> /\
  IF Fits(cap, base, cur, e.bytes, e.align)
  THEN LET b == [k |-> e.k, at |-> e.at, bytes |-> e.bytes, align |-> e.align] IN
       /\ Check(e.got, <<"refused", e.bytes, e.align, "at", cur, "of", cap>>)
       /\ Check(Disjoint(bs \cup {b}), <<"overlaps", b, bs>>) /\ Check(InRange({b}, cap), <<"out of range", b, cap>>) /\ Check(Aligned({b}, base), <<"not aligned", b, base>>)
       /\ bs' = bs \cup {b} /\ cur' = e.at + e.bytes
  ELSE Check(~e.got, <<"exhausted, but handed out", e.at>>) /\ UNCHANGED <<cur, bs>>
Give == e.ev = "give" /\ UNCHANGED <<out, cap, base>> /\ LET b == CHOOSE x \in bs : x.k = e.k IN bs' = bs \ {b} /\ cur' = BackTo(cur, b)
TraceInit == l = 1 /\ out = {} /\ cap = 0 /\ base = 0 /\ cur = 0 /\ bs = {}
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Op \/ End \/ Buf \/ Take \/ Give)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=================================================================================
