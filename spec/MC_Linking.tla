------------------------------ MODULE MC_Linking -------------------------------
(* The linker as a set of transitions: symbols of the library are bound to       *)
(* imports or pulled in because something transferred refers to them, in any     *)
(* order.  Whatever the order, the same symbols end up in the result, each once,*)
(* everything a transferred symbol refers to is there too, and nothing else is.  *)
(* Configurations are handed to the driver.                                     *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC
CONSTANT Emit
Funs == {1, 2}  Vars == {11, 12}  Syms == {1, 2, 11}
\* none: internal; exp: exported, not imported; both: exported and imported; mism: imported with another type;
\* only: imported, not exported; ext: imported by the library itself
Status == {"none", "exp", "both", "mism", "only", "ext"}
VARIABLES st, calls, uses, fopt, vopt, bound, pulled, err, done
vars == <<st, calls, uses, fopt, vopt, bound, pulled, err, done>>
Refs(x) == IF x \in Funs THEN (IF st[x] = "ext" THEN {} ELSE {p[2] : p \in {q \in calls \cup uses : q[1] = x}}) ELSE {}
Wish == {x \in Syms : st[x] = "both"}
RECURSIVE All(_)
All(S) == LET T == S \cup UNION {Refs(x) \ Wish : x \in S} IN IF T = S THEN S ELSE All(T)
Bit(b) == IF b THEN 1 ELSE 0
Init == /\ st \in [Syms -> Status] /\ calls \in SUBSET {<<1, 2>>, <<2, 1>>} /\ uses \in SUBSET {<<1, 11>>, <<2, 11>>, <<2, 12>>}
        /\ fopt \in BOOLEAN /\ vopt \in BOOLEAN /\ bound = {} /\ pulled = <<>> /\ err = FALSE /\ done = FALSE
        /\ (Emit => PrintT("S " \o ToJson(<<st[1], st[2], st[11], <<Bit(<<1, 2>> \in calls), Bit(<<2, 1>> \in calls)>>,
              <<Bit(<<1, 11>> \in uses), Bit(<<2, 11>> \in uses), Bit(<<2, 12>> \in uses)>>, Bit(fopt), Bit(vopt)>>)))
In(x) == x \in bound \/ \E k \in DOMAIN pulled : pulled[k] = x
Transferred == bound \cup {pulled[k] : k \in DOMAIN pulled}
Bind(x) == x \in Wish \ bound /\ bound' = bound \cup {x} /\ UNCHANGED <<st, calls, uses, fopt, vopt, pulled, err, done>>
Missing == (UNION {Refs(y) : y \in Transferred}) \ (Transferred \cup Wish)
Allowed(x) == IF x \in Funs THEN fopt ELSE vopt
Pull(x) == x \in Missing /\ Allowed(x) /\ pulled' = Append(pulled, x) /\ UNCHANGED <<st, calls, uses, fopt, vopt, bound, err, done>>
Finish == ~done /\ bound = Wish /\ ~(\E x \in Missing : Allowed(x)) /\ done' = TRUE
          /\ err' = (Missing # {} \/ \E x \in Syms : st[x] = "mism") /\ UNCHANGED <<st, calls, uses, fopt, vopt, bound, pulled>>
BindAny == ~Emit /\ \E x \in Syms : Bind(x)
PullAny == ~Emit /\ \E x \in Funs \cup Vars : Pull(x)
End == ~Emit /\ Finish
Next == BindAny \/ PullAny \/ End
Spec == Init /\ [][Next]_vars
\* each once
Once == Cardinality({pulled[k] : k \in DOMAIN pulled}) = Len(pulled) /\ \A k \in DOMAIN pulled : pulled[k] \notin bound
\* the outcome does not depend on the order
Outcome == done => (Transferred \subseteq All(Wish) /\ (~err => Transferred = All(Wish)) /\ (fopt /\ vopt => Transferred = All(Wish)))
\* nothing dangles in a success
Whole == done /\ ~err => \A x \in Transferred : Refs(x) \subseteq Transferred
\* failure is reported exactly when something needed was not allowed or a type differs
Reported == done => (err = ((\E x \in Syms : st[x] = "mism") \/ All(Wish) # Transferred))
================================================================================
