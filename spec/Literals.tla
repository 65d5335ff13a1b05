------------------------------ MODULE Literals -------------------------------
(* Literal operands.  A string is a sequence of bytes 1..255, a word is <<hi,  *)
(* lo>> (16 bits each), a number is its 16 bit pieces, low piece first.         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Byte(w, k) == CASE k = 1 -> w[2] % 256 [] k = 2 -> w[2] \div 256 [] k = 3 -> w[1] % 256 [] k = 4 -> w[1] \div 256
WordOf(a, b, c, d) == <<c + 256 * d, a + 256 * b>>
At(s, k) == IF k <= Len(s) THEN s[k] ELSE 0
\* a string always has a terminator: one more word when its length is a multiple of four
StrWords(s) == [k \in 1..(Len(s) \div 4 + 1) |-> WordOf(At(s, 4 * k - 3), At(s, 4 * k - 2), At(s, 4 * k - 1), At(s, 4 * k))]
\* the bytes of words, and the string they begin with; the number of words it takes (0: no terminator)
Bytes(ws) == [k \in 1..(4 * Len(ws)) |-> Byte(ws[(k - 1) \div 4 + 1], ((k - 1) % 4) + 1)]
End(ws) == LET b == Bytes(ws)  Z == {k \in DOMAIN b : b[k] = 0} IN IF Z = {} THEN 0 ELSE CHOOSE k \in Z : \A j \in Z : k <= j
StrOf(ws) == LET e == End(ws) IN SubSeq(Bytes(ws), 1, IF e = 0 THEN 4 * Len(ws) ELSE e - 1)
Taken(ws) == LET e == End(ws) IN IF e = 0 THEN 0 ELSE (e - 1) \div 4 + 1
\* characters c, of which the first n count (-1: all, they are terminated), against the string s: must match, must not match, or (s goes on) either
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Match(c, n, s) ==
  IF n < 0 \/ n > Len(c) THEN {c = s}
  ELSE LET k == SubSeq(c, 1, n) IN IF k = s THEN {TRUE} ELSE IF Prefix(k, s) THEN BOOLEAN ELSE {FALSE}

\* numbers: <<kind, pieces>>
Ext8(b) == IF b >= 128 THEN <<65535, 65280 + b>> ELSE <<0, b>>
Ext16(b) == IF b >= 32768 THEN <<65535, b>> ELSE <<0, b>>
NumWords(k, b) ==
  CASE k = "i8" -> <<Ext8(b[1])>> [] k = "u8" -> <<<<0, b[1]>>>>
    [] k = "i16" -> <<Ext16(b[1])>> [] k = "u16" -> <<<<0, b[1]>>>>
    [] k \in {"i32", "u32", "f32", "enum", "flag", "lit"} -> <<<<b[2], b[1]>>>>
    [] k = "bool" -> <<<<0, b[1]>>>>
    [] k \in {"i64", "u64", "f64"} -> <<<<b[2], b[1]>>, <<b[4], b[3]>>>>
ItemWords(i) == IF i[1] = "s" THEN StrWords(i[2]) ELSE NumWords(i[1], i[2])
RECURSIVE AllWords(_)
AllWords(is) == IF is = <<>> THEN <<>> ELSE ItemWords(Head(is)) \o AllWords(Tail(is))
=============================================================================
