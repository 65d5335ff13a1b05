---------------------------- MODULE MC_Literals ------------------------------
(* An operand list to which literals are appended one by one and from which    *)
(* strings are read back; the lists are handed to the implementation.          *)
EXTENDS Literals, Json
CONSTANTS MaxItems, Wide
VARIABLES items, words, starts
vars == <<items, words, starts>>
Bs == IF Wide THEN {1, 65, 128, 255} ELSE {65, 200}
SeqUpTo(n) == UNION {[1..k -> Bs] : k \in 0..n}
Tile(n) == [k \in 1..n |-> IF k % 5 = 0 THEN 255 ELSE 96 + k]
Strs == SeqUpTo(IF Wide THEN 3 ELSE 2) \cup {Tile(k) : k \in 0..13}
P8 == {0, 1, 127, 128, 255}  P16 == {0, 255, 256, 32767, 32768, 65535}
Nums == {<<k, <<b>>>> : k \in {"i8", "u8"}, b \in P8} \cup {<<k, <<b>>>> : k \in {"i16", "u16"}, b \in P16} \cup {<<"bool", <<b>>>> : b \in {0, 1}}
   \cup {<<k, <<a, b>>>> : k \in {"i32", "u32", "f32", "enum", "flag", "lit"}, a \in {0, 1, 65535}, b \in {0, 16256, 32767, 32768, 65535}}
   \cup {<<k, <<a, b, c, d>>>> : k \in {"i64", "u64", "f64"}, a \in {0, 1, 65535}, b \in {0, 32768}, c \in {0, 7, 65535}, d \in {0, 16368, 32768}}
Items == {<<"s", s>> : s \in Strs} \cup (IF Wide \/ MaxItems = 1 THEN Nums ELSE {<<"i8", <<200>>>>, <<"u16", <<40000>>>>, <<"i64", <<1, 2, 3, 4>>>>, <<"f32", <<0, 16256>>>>, <<"lit", <<0, 0>>>>})
Init == items = <<>> /\ words = <<>> /\ starts = <<>>
Append1(i) == items' = Append(items, i) /\ words' = words \o ItemWords(i) /\ starts' = Append(starts, Len(words) + 1)
Next == Len(items) < MaxItems /\ \E i \in Items : Append1(i)
Spec == Init /\ [][Next]_vars
\* every string is found again where it was put, and reading stops at what follows it
Back == \A k \in DOMAIN items : items[k][1] = "s" =>
  LET rest == SubSeq(words, starts[k], Len(words)) IN
  /\ StrOf(rest) = items[k][2]
  /\ starts[k] + Taken(rest) = (IF k = Len(items) THEN Len(words) + 1 ELSE starts[k + 1])
\* different strings have different words
Injective == (Len(items) = 2 /\ items[1][1] = "s" /\ items[2][1] = "s" /\ items[1] # items[2]) => ItemWords(items[1]) # ItemWords(items[2])
Whole == words = AllWords(items)
Out == items = <<>> \/ PrintT("S " \o ToJson(items))
=============================================================================
