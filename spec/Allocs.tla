--------------------------------- MODULE Allocs --------------------------------
(* Memory obtained from allocators.  Part one: blocks <<allocator, block, size>>  *)
(* that are out.  Part two: a buffer of cap bytes at address base from which       *)
(* blocks are cut one after the other; only the last one can be put back.          *)
EXTENDS Integers, Sequences, FiniteSets
\* taken: blocks handed out in one operation; back: <<allocator, block, size named>> returned in it
MayReturn(out, taken, back) ==
  /\ \A k \in DOMAIN back : back[k] \in out \cup taken
  /\ Cardinality({back[k] : k \in DOMAIN back}) = Len(back)
OutAfter(out, taken, back) == (out \cup taken) \ {back[k] : k \in DOMAIN back}
\* ------------------------------------------------------------------- buffer
\* cur: first byte not handed out, counted from the start of the buffer
Pad(base, cur, align) == LET r == (base + cur) % align IN IF r = 0 THEN 0 ELSE align - r
Fits(cap, base, cur, bytes, align) == bytes >= 0 /\ Pad(base, cur, align) + bytes <= cap - cur
CutAt(base, cur, align) == cur + Pad(base, cur, align)
BackTo(cur, b) == IF b.at + b.bytes = cur THEN b.at ELSE cur
\* what is asked of the blocks that are out, whatever the strategy
Disjoint(bs) == \A a, b \in bs : a.k = b.k \/ a.bytes = 0 \/ b.bytes = 0 \/ a.at + a.bytes <= b.at \/ b.at + b.bytes <= a.at
InRange(bs, cap) == \A b \in bs : b.at >= 0 /\ b.at + b.bytes <= cap
Aligned(bs, base) == \A b \in bs : (base + b.at) % b.align = 0
================================================================================
