--------------------------- MODULE MC_Requirements -----------------------------
(* Histories of declarations, instructions and finalisations.  Finalising takes  *)
(* every listed alternative and raises the version.                             *)
EXTENDS Requirements, TLC
CONSTANTS Steps
VARIABLES caps, exts, ver, ops, hist, done
vars == <<caps, exts, ver, ops, hist, done>>
\* forward pointers, ray tracing, terminate invocation, copy logical, kernel enqueue, group non uniform, decorate id, bit field insert
Ops == {39, 4445, 4416, 400, 292, 333, 332, 201}
\* shader, matrix, image gather, ray tracing, ray traversal culling, non uniform indexing, kernel, image mipmap
Caps == {1, 0, 25, 4479, 4478, 5310, 6, 15}
Init == caps = {} /\ exts = {} /\ ver = 65536 /\ ops = {} /\ hist = <<>> /\ done = FALSE
Log(x) == Len(hist) < Steps /\ hist' = Append(hist, x)
AddCap(c, dep) == caps' = caps \cup (IF dep THEN Least(c) ELSE {c}) /\ done' = FALSE /\ Log(<<"cap", c, dep>>) /\ UNCHANGED <<exts, ver, ops>>
DelCap(c) == c \in caps /\ caps' = caps \ {c} /\ done' = FALSE /\ Log(<<"uncap", c>>) /\ UNCHANGED <<exts, ver, ops>>
Place(o) == o \notin ops /\ ops' = ops \cup {o} /\ done' = FALSE /\ Log(<<"op", o>>) /\ UNCHANGED <<caps, exts, ver>>
SetVersion(v) == v # ver /\ ver' = v /\ done' = FALSE /\ Log(<<"ver", v>>) /\ UNCHANGED <<caps, exts, ops>>
Final == ~done /\ done' = TRUE /\ caps' = caps \cup UNION {CapsOf(o) : o \in ops} /\ exts' = exts \cup UNION {ExtsOf(o) : o \in ops}
         /\ ver' = MaxOf({ver} \cup {VerOf(o) : o \in ops}) /\ Log(<<"fin">>) /\ UNCHANGED ops
Next ==
  \/ \E c \in Caps, d \in BOOLEAN : AddCap(c, d)
  \/ \E c \in Caps : DelCap(c)
  \/ \E o \in Ops : Place(o)
  \/ \E v \in {65536, 66304, 67072} : SetVersion(v)
  \/ Final
Spec == Init /\ [][Next]_vars
View == <<caps, exts, ver, ops, done, Len(hist)>>
Right == done => Covered(caps, ops) /\ ExtsCovered(exts, ver, ops) /\ ver >= Needed(exts, ops)
Kept == [][Len(hist') > 0 /\ hist'[Len(hist')] = <<"fin">> => CapsWithin(caps, caps', ops) /\ ExtsWithin(exts, exts', ops) /\ VerOk(ver, ver', exts', ops)]_vars
Out == Len(hist) = Steps => PrintT("S " \o ToJson(hist))
================================================================================
