------------------------------- MODULE Variables -------------------------------
(* Variables of a module and of a function.  A request names a storage class, a  *)
(* type (of what the variable holds), an initial value and a name; the module     *)
(* declares what the request is made of, appends one variable that has all of it   *)
(* to its global variables - or puts it in front of the function's entry block -   *)
(* and nothing else.                                                             *)
EXTENDS Types
OpVar == 59
Local == 7
NoName == <<-1>>
\* r: [sc, type, init: <<>> or <<requested constant>>, name: NoName or character codes, at: 0 (module) or a function]
PtrTo(r) == <<"Ptr", r.sc, r.type>>
InitOf(r) == IF r.init = <<>> THEN <<>> ELSE <<Want(r.init[1])>>
Allowed(r) == Parts(PtrTo(r)) \cup (IF r.init = <<>> THEN {} ELSE Parts(InitOf(r)[1]))
\* what the variable should be
Wanted(r) == [type |-> PtrTo(r), sc |-> r.sc, init |-> InitOf(r)]
\* what an instruction <<node, op, operands>> is
NoVar == [type |-> Bad, sc |-> -1, init |-> <<>>]
VarOf(i, D) ==
  LET a == i[3] IN
  IF i[2] = OpVar /\ Len(a) \in {3, 4} /\ IsRef(a[1]) /\ a[2][1] = "d" /\ IsLit(a[3]) /\ (Len(a) = 4 => IsRef(a[4]))
  THEN [type |-> Get(D, a[1]), sc |-> Num(a[3]), init |-> IF Len(a) = 4 THEN <<Get(D, a[4])>> ELSE <<>>] ELSE NoVar
\* new declarations for a request
Declares(D, r, new) ==
  LET E == Fold(D, new, 1)  N == {new[k][1] : k \in DOMAIN new} IN
  [ E |-> E,
    fresh |-> Cardinality(N) = Len(new) /\ N \cap DOMAIN D = {},
    decoded |-> \A k \in N : E[k] # Bad,
    needed |-> \A k \in N : E[k] \in Allowed(r),
    once |-> \A k \in N : HasSpec(E[k]) \/ (E[k] \notin Range(D) /\ \A j \in N \ {k} : E[j] # E[k]) ]
\* where the variable goes: behind the module's, in front of the function's
Place(vars, r, v) == IF r.at = 0 THEN [vars EXCEPT ![1] = Append(@, v)] ELSE [vars EXCEPT ![r.at + 1] = <<v>> \o @]
\* a function without blocks gets an entry block first
Opens(blocks, r) == r.at # 0 /\ blocks[r.at] = <<>>
EntryName == <<70, 117, 110, 99, 116, 105, 111, 110, 69, 110, 116, 114, 121>>
================================================================================
