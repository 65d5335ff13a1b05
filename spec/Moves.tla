--------------------------------- MODULE Moves ---------------------------------
(* Places that hold modules.  A place is free, holds a module with the history  *)
(* of what was put into it, or holds one that was moved from.                    *)
EXTENDS Naturals, Sequences, FiniteSets
Free == [k |-> "free", h |-> <<>>, a |-> 0]
Gone == [k |-> "gone", h |-> <<>>, a |-> 0]
Holds(h, a) == [k |-> "live", h |-> h, a |-> a]
\* effects on places p
PNew(p, s, a) == [p EXCEPT ![s] = Holds(<<>>, a)]
PExtend(p, s, c) == [p EXCEPT ![s].h = Append(@, c)]
\* by construction or by assignment: everything including the allocator goes over, what d held before is gone
PMove(p, s, d) == IF s = d THEN p ELSE [p EXCEPT ![d] = p[s], ![s] = Gone]
PReset(p, s) == [p EXCEPT ![s].h = <<>>]
PDelete(p, s) == [p EXCEPT ![s] = Free]
================================================================================
