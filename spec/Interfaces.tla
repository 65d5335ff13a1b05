----------------------------- MODULE Interfaces -------------------------------
(* Interfaces of entry points: the module-scope variables that the code that   *)
(* can be reached from the entry function through calls mentions.              *)
EXTENDS Naturals, Sequences, FiniteSets
\* calls: function -> functions called; uses: function -> variables mentioned
RECURSIVE Reach(_, _)
Reach(S, calls) == LET T == S \cup UNION {calls[f] : f \in S} IN IF T = S THEN S ELSE Reach(T, calls)
Mentioned(f, calls, uses) == UNION {uses[g] : g \in Reach({f}, calls)}
\* storage classes: Input 1, Output 3
Listed(vs, storage, minor) == IF minor >= 4 THEN vs ELSE {v \in vs : storage[v] \in {1, 3}}
Wanted(f, calls, uses, storage, minor) == Listed(Mentioned(f, calls, uses), storage, minor)
===============================================================================
