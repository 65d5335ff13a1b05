------------------------------ MODULE MC_Callables -----------------------------
(* All short histories of callables in N places.                                  *)
EXTENDS Callables, TLC, Json
CONSTANTS N, Steps
VARIABLES p, sh, hist, calls
vars == <<p, sh, hist, calls>>
S == 1..N
Init == p = [s \in S |-> Cell("free")] /\ sh = [t \in 1..9 |-> 0] /\ hist = <<>> /\ calls = 0
Log(x) == Len(hist) < Steps /\ hist' = Append(hist, x)
FirstFree(s) == p[s].k = "free" /\ \A t \in 1..(s - 1) : p[t].k # "free"
Same == UNCHANGED <<sh, calls>>
Tag == 1 + (Len(hist) % 9)
Empty(s, a) == FirstFree(s) /\ p' = PEmpty(p, s, a) /\ Same /\ Log(<<"empty", s, a>>)
Make(s, kind) == FirstFree(s) /\ p' = PMake(p, s, Fun(kind, Tag), 1) /\ Same /\ Log(<<"make", s, 1, kind, Tag>>)
Copy(s, d) == p[s].k # "free" /\ FirstFree(d) /\ p' = PCopy(p, s, d) /\ Same /\ Log(<<"copy", s, d>>)
Move(s, d) == p[s].k # "free" /\ FirstFree(d) /\ p' = PMove(p, s, d) /\ Same /\ Log(<<"move", s, d>>)
Assign(s, d) == p[s].k # "free" /\ p[d].k # "free" /\ p' = PCopy(p, s, d) /\ Same /\ Log(<<"assign", s, d>>)
MoveAssign(s, d) == s # d /\ p[s].k # "free" /\ p[d].k # "free" /\ p' = PMove(p, s, d) /\ Same /\ Log(<<"massign", s, d>>)
Set(s, kind) == p[s].k \in {"none", "hold"} /\ p' = PSet(p, s, Fun(kind, Tag)) /\ Same /\ Log(<<"set", s, 0, kind, Tag>>)
Reset(s) == p[s].k \notin {"free"} /\ p' = PReset(p, s) /\ Same /\ Log(<<"reset", s>>)
Call(s) == p[s].k = "hold" /\ p' = PCall(p, s) /\ sh' = SCall(sh, p[s].f) /\ calls' = calls + 1 /\ Log(<<"call", s>>)
Delete(s) == p[s].k # "free" /\ p' = PDelete(p, s) /\ Same /\ Log(<<"del", s>>)
Next ==
  \/ \E s \in S, a \in {0, 1} : Empty(s, a)
  \/ \E s \in S, kind \in {"obj", "mem", "fn"} : Make(s, kind)
  \/ \E s, d \in S : Copy(s, d)
  \/ \E s, d \in S : Move(s, d)
  \/ \E s, d \in S : Assign(s, d)
  \/ \E s, d \in S : MoveAssign(s, d)
  \/ \E s \in S, kind \in {"big"} : Set(s, kind)
  \/ \E s \in S : Reset(s)
  \/ \E s \in S : Call(s)
  \/ \E s \in S : Delete(s)
Spec == Init /\ [][Next]_vars
\* no call is counted twice, and only what is held counts or occupies memory
Counted == sh[1] + sh[2] + sh[3] + sh[4] + sh[5] + sh[6] + sh[7] + sh[8] + sh[9] <= calls
Kinds == \A s \in S : (p[s].k = "hold") = (p[s].f # NoF) /\ (p[s].k \in {"none", "hold"}) = (p[s].a # 0)
Few == Alive(p) <= Blocks(p, 1) /\ Blocks(p, 1) <= N
Calls == \A s \in S : p[s].f.n <= calls
Worth == \E k \in DOMAIN hist : hist[k][1] \in {"copy", "move", "assign", "massign", "reset", "set"}
Out == Len(hist) = Steps /\ Worth /\ hist[Steps][1] \in {"call", "assign", "massign", "set", "copy", "move", "del"} => PrintT("S " \o ToJson(hist))
================================================================================
