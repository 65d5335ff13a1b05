------------------------------- MODULE Arrays --------------------------------
(* Growable arrays and strings as sequences.  Storage growth is not part of   *)
(* the abstract state: whatever the capacity, the contents are these.         *)
EXTENDS Naturals, Integers, Sequences

VARIABLE seqs          \* name -> sequence (array elements, or character codes)
avars == <<seqs>>
Names == {"a", "b"}
Other(x) == IF x = "a" THEN "b" ELSE "a"
Min(p, r) == IF p < r THEN p ELSE r

Splice(s, pos, t) == SubSeq(s, 1, pos) \o t \o SubSeq(s, pos + 1, Len(s))
Resized(s, n, v) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE v]
Filled(s, pos, cnt, v) == [i \in 1..Len(s) |-> IF i > pos /\ (cnt < 0 \/ i <= pos + cnt) THEN v ELSE s[i]]
SubStr(s, off, len) == IF off >= Len(s) THEN <<>> ELSE SubSeq(s, off + 1, Min(Len(s), off + len))

AInit == seqs = [x \in Names |-> <<>>]
Set(x, s) == seqs' = [seqs EXCEPT ![x] = s]
Keep == UNCHANGED avars

PushBack(x, v) == Set(x, Append(seqs[x], v))
AppendAll(x, t) == Set(x, seqs[x] \o t)
Resize(x, n, v) == Set(x, Resized(seqs[x], n, v))
Clear(x) == Set(x, <<>>)
Fill(x, pos, cnt, v) == Set(x, Filled(seqs[x], pos, cnt, v))
\* inserting into an empty array ignores the position; outside of the range nothing happens
InsertPos(x, pos) == IF seqs[x] = <<>> THEN 0 ELSE pos
InsertOk(x, pos) == InsertPos(x, pos) <= Len(seqs[x])
Insert(x, pos, t) == IF InsertOk(x, pos) THEN Set(x, Splice(seqs[x], InsertPos(x, pos), t)) ELSE Keep
CopyAssign(x) == Set(x, seqs[Other(x)])
MoveAssign(x) == seqs' = [seqs EXCEPT ![x] = seqs[Other(x)], ![Other(x)] = <<>>]
Assign(x, t) == Set(x, t)
Store(x, i, v) == i < Len(seqs[x]) /\ Set(x, [seqs[x] EXCEPT ![i + 1] = v])
\* the same operations with elements of x itself as argument: what is added is their value before
Own(x, i) == seqs[x][i + 1]
PushOwn(x, i) == i < Len(seqs[x]) /\ PushBack(x, Own(x, i))
InsertOwn(x, pos, i, cnt) == i + cnt <= Len(seqs[x]) /\ Insert(x, pos, SubSeq(seqs[x], i + 1, i + cnt))
ResizeOwn(x, n, i) == i < Len(seqs[x]) /\ Resize(x, n, Own(x, i))
AppendOwn(x, i) == AppendAll(x, SubSeq(seqs[x], i + 1, Len(seqs[x])))
\* x := p \o t   where p is the other string
Concat(x, t) == Set(x, seqs[Other(x)] \o t)
=============================================================================
