-------------------------------- MODULE MC_Moves -------------------------------
(* All short histories of creating, filling, moving, resetting and destroying    *)
(* modules in N places.                                                           *)
EXTENDS Moves, TLC, Json
CONSTANTS N, Steps
VARIABLES p, hist, made
vars == <<p, hist, made>>
S == 1..N
Init == p = [s \in S |-> Free] /\ hist = <<>> /\ made = 0
Log(x) == Len(hist) < Steps /\ hist' = Append(hist, x)
\* places are used in order, symmetric histories are enumerated once
FirstFree(s) == p[s].k = "free" /\ \A t \in 1..(s - 1) : p[t].k # "free"
New(s) == FirstFree(s) /\ p' = PNew(p, s, 1 + (made % 2)) /\ made' = made + 1 /\ Log(<<"new", s, 1 + (made % 2)>>)
Extend(s) == p[s].k = "live" /\ Len(p[s].h) < 2 /\ p' = PExtend(p, s, Len(hist)) /\ Log(<<"ext", s, Len(hist)>>) /\ UNCHANGED made
Construct(s, d) == p[s].k = "live" /\ FirstFree(d) /\ p' = PMove(p, s, d) /\ Log(<<"mvn", s, d>>) /\ UNCHANGED made
Assign(s, d) == p[s].k = "live" /\ p[d].k # "free" /\ p' = PMove(p, s, d) /\ Log(<<"mva", s, d>>) /\ UNCHANGED made
Reset(s) == p[s].k = "live" /\ p[s].h # <<>> /\ p' = PReset(p, s) /\ Log(<<"reset", s>>) /\ UNCHANGED made
Delete(s) == p[s].k # "free" /\ p' = PDelete(p, s) /\ Log(<<"del", s>>) /\ UNCHANGED made
Next ==
  \/ \E s \in S : New(s)
  \/ \E s \in S : Extend(s)
  \/ \E s, d \in S : Construct(s, d)
  \/ \E s, d \in S : Assign(s, d)
  \/ \E s \in S : Reset(s)
  \/ \E s \in S : Delete(s)
Spec == Init /\ [][Next]_vars
\* chunks are named by the step that added them: none is ever in two places, and only what was put in is there
Once == \A s, t \in S : s # t => {p[s].h[k] : k \in DOMAIN p[s].h} \cap {p[t].h[k] : k \in DOMAIN p[t].h} = {}
Own == \A s \in S : \A k \in DOMAIN p[s].h : hist[p[s].h[k] + 1][1] = "ext"
Ordered == \A s \in S : \A k \in 2..Len(p[s].h) : p[s].h[k - 1] < p[s].h[k]
GoneEmpty == \A s \in S : p[s].k # "live" => p[s].h = <<>> /\ p[s].a = 0
Worth == \E k \in DOMAIN hist : hist[k][1] \in {"mvn", "mva", "reset"}
Out == Len(hist) = Steps /\ Worth /\ hist[Steps][1] \in {"ext", "mvn", "mva", "reset"} => PrintT("S " \o ToJson(hist))
================================================================================
