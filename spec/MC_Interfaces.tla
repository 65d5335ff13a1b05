---------------------------- MODULE MC_Interfaces ------------------------------
(* A module under construction: functions get calls and uses, the version       *)
(* changes, interfaces are finalised by walking from the entry function.  The   *)
(* walk must list what Wanted asks for, whatever happened before.               *)
EXTENDS Interfaces, TLC, Json
CONSTANTS NF, NE, NV, Steps
VARIABLES calls, uses, minor, io, hist, fresh
vars == <<calls, uses, minor, io, hist, fresh>>
Fs == 1..NF          \* functions NF - NE + 1 .. NF are entry points
Es == (NF - NE + 1)..NF
Vs == 1..NV
Storage == <<1, 3, 6, 2, 12>>
Init == calls = [f \in Fs |-> {}] /\ uses = [f \in Fs |-> {}] /\ minor = 3 /\ io = [e \in Es |-> {}] /\ hist = <<>> /\ fresh = FALSE
Log(x) == Len(hist) < Steps /\ hist' = Append(hist, x)
\* the work list walk: functions found so far, in order
RECURSIVE Walk(_, _)
Walk(found, k) ==
  IF k > Len(found) THEN found
  ELSE LET new == {g \in calls[found[k]] : g \notin {found[j] : j \in DOMAIN found}}
           RECURSIVE Add(_, _)
           Add(s, S) == IF S = {} THEN s ELSE LET g == CHOOSE x \in S : \A y \in S : x <= y IN Add(Append(s, g), S \ {g}) IN
       Walk(Add(found, new), k + 1)
Built(e) == LET found == Walk(<<e>>, 1) IN {v \in UNION {uses[found[k]] : k \in DOMAIN found} : minor >= 4 \/ Storage[v] \in {1, 3}}
Use(f, v) == v \notin uses[f] /\ uses' = [uses EXCEPT ![f] = @ \cup {v}] /\ fresh' = FALSE /\ Log(<<"use", f, v>>) /\ UNCHANGED <<calls, minor, io>>
Call(f, g) == g \notin calls[f] /\ g \notin Es /\ calls' = [calls EXCEPT ![f] = @ \cup {g}] /\ fresh' = FALSE /\ Log(<<"call", f, g>>) /\ UNCHANGED <<uses, minor, io>>
Drop(f) == uses[f] \cup calls[f] # {} /\ uses' = [uses EXCEPT ![f] = {}] /\ calls' = [calls EXCEPT ![f] = {}] /\ fresh' = FALSE /\ Log(<<"drop", f>>) /\ UNCHANGED <<minor, io>>
Version(n) == n # minor /\ minor' = n /\ fresh' = FALSE /\ Log(<<"ver", n>>) /\ UNCHANGED <<calls, uses, io>>
Final == ~fresh /\ io' = [e \in Es |-> Built(e)] /\ fresh' = TRUE /\ Log(<<"fin">>) /\ UNCHANGED <<calls, uses, minor>>
Next ==
  \/ \E f \in Fs, v \in Vs : Use(f, v)
  \/ \E f, g \in Fs : Call(f, g)
  \/ \E f \in Fs : Drop(f)
  \/ \E n \in {3, 4} : Version(n)
  \/ Final
Spec == Init /\ [][Next]_vars
Right == fresh => \A e \in Es : io[e] = Wanted(e, calls, uses, Storage, minor)
Out == Len(hist) = Steps /\ hist[Steps][1] # "fin" => PrintT("S " \o ToJson(hist))
================================================================================
