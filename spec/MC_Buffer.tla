-------------------------------- MODULE MC_Buffer -------------------------------
(* All short histories of taking blocks from a buffer and putting them back.       *)
EXTENDS Allocs, TLC, Json
CONSTANTS Caps, Bases, Sizes, Aligns, Steps
VARIABLES cap, base, cur, bs, hist
vars == <<cap, base, cur, bs, hist>>
Init == cap \in Caps /\ base \in Bases /\ cur = 0 /\ bs = {} /\ hist = <<<<"buf", cap, base>>>>
Log(x) == Len(hist) <= Steps /\ hist' = Append(hist, x) /\ UNCHANGED <<cap, base>>
Take(n, a) ==
  /\ IF Fits(cap, base, cur, n, a) THEN bs' = bs \cup {[k |-> Len(hist), at |-> CutAt(base, cur, a), bytes |-> n, align |-> a]} /\ cur' = CutAt(base, cur, a) + n
     ELSE UNCHANGED <<bs, cur>>
  /\ Log(<<"take", n, a>>)
Give(b) == bs' = bs \ {b} /\ cur' = BackTo(cur, b) /\ Log(<<"give", b.k, 0>>)
Next == (\E n \in Sizes, a \in Aligns : Take(n, a)) \/ (\E b \in bs : Give(b))
Spec == Init /\ [][Next]_vars
Fine == Disjoint(bs) /\ InRange(bs, cap) /\ Aligned(bs, base) /\ 0 <= cur /\ cur <= cap
\* nothing that is out is ever handed out again
Above == \A b \in bs : b.bytes > 0 => b.at + b.bytes <= cur
Out == Len(hist) = Steps + 1 => PrintT("S " \o ToJson(hist))
================================================================================
