------------------------------- MODULE Printer -------------------------------
(* The textual listing of a module: the tokens of every line, computed from the *)
(* words of the module and the options alone.  An expected token is a set of    *)
(* acceptable texts <<"s", texts>>, a floating point number <<"f", words>>, or  *)
(* <<"any">>.                                                                   *)
(* level: 0 ids are numbers, 1 ids are resolved, 2 types, constants and names   *)
(* are known                                                                    *)
EXTENDS Recover
Bit(o, b) == (o \div b) % 2 = 1
Preamble == 1  InstructionName == 2  OperandName == 4  ResultId == 8  OperationName == 16  TypeName == 32  ConstantData == 64
------------------------------------------------------------------ \* texts
Ascii == <<" ","!","?","#","$","%","&","'","(",")","*","+",",","-",".","/","0","1","2","3","4","5","6","7","8","9",":",";","<","=",">","?","@",
  "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","[","\\","]","^","_","`",
  "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z","{","|","}","~">>
Char(c) == IF c >= 32 /\ c <= 126 THEN Ascii[c - 31] ELSE "?"
Text(s) == FoldLeft(LAMBDA a, c : a \o Char(c), "", s)
\* a number of 16 bit pieces, high piece first, in decimal: digits, low digit first
RECURSIVE Div10(_, _, _, _)
Div10(h, k, r, q) == IF k > Len(h) THEN <<q, r>> ELSE LET v == r * 65536 + h[k] IN Div10(h, k + 1, v % 10, Append(q, v \div 10))
RECURSIVE Decimal(_, _)
Decimal(h, acc) == IF \A k \in DOMAIN h : h[k] = 0 THEN (IF acc = "" THEN "0" ELSE acc) ELSE LET d == Div10(h, 1, 0, <<>>) IN Decimal(d[1], ToString(d[2]) \o acc)
Unsigned(h) == Decimal(h, "")
\* two's complement of the pieces
Negated(h) == LET inv == [k \in DOMAIN h |-> 65535 - h[k]]  n == Len(h)
                  full(k) == \A j \in (k + 1)..n : inv[j] = 65535 IN
              [k \in DOMAIN h |-> IF full(k) THEN (inv[k] + 1) % 65536 ELSE inv[k]]
SignedText(h) == IF h[1] >= 32768 THEN "-" \o Decimal(Negated(h), "") ELSE Decimal(h, "")
Num32(w) == Unsigned(w)
Pieces(ws) == Flat([k \in 1..Len(ws) |-> ws[Len(ws) + 1 - k]])
------------------------------------------------------------------ \* types and constants
ScalarText(t) ==
  CASE t = <<"Bool">> -> "bool"
    [] t[1] = "Int" /\ t[2] \in {8, 16, 32, 64} -> (IF t[3] = 1 THEN "int" ELSE "uint") \o ToString(t[2])
    [] t = <<"Float", 16>> -> "half" [] t = <<"Float", 32>> -> "float" [] t = <<"Float", 64>> -> "double"
    [] OTHER -> ""
Some(s, suffix) == IF s = "" THEN "" ELSE s \o suffix
TypeText(t) ==
  CASE t = <<"Void">> -> "void"
    [] t[1] \in {"Bool", "Int", "Float"} -> ScalarText(t)
    [] t[1] = "Vec" /\ t[3] \in 2..4 -> Some(ScalarText(t[2]), "_" \o ToString(t[3]))
    [] t[1] = "Mat" /\ t[2][1] = "Vec" /\ t[3] \in 2..4 /\ t[2][3] \in 2..4 -> Some(ScalarText(t[2][2]), "_" \o ToString(t[3]) \o "x" \o ToString(t[2][3]))
    [] OTHER -> ""
None == <<"none">>
Is(x) == <<"s", {x}>>
Of(S) == <<"s", S>>
IntText(t, ws) ==
  LET h == Pieces(ws)  lo == h[Len(h)] IN
  CASE t[2] = 8 -> (IF t[3] = 1 /\ lo % 256 >= 128 THEN "-" \o ToString(256 - (lo % 256)) ELSE ToString(lo % 256))
    [] t[2] = 16 -> (IF t[3] = 1 THEN SignedText(<<lo>>) ELSE Unsigned(<<lo>>))
    [] OTHER -> (IF t[3] = 1 THEN SignedText(h) ELSE Unsigned(h))
ConstText(c) ==
  CASE c[1] = 46 -> Is("null") [] c[1] \in {41, 48} -> Is("true") [] c[1] \in {42, 49} -> Is("false")
    [] c[1] \in {43, 50} /\ c[2][1] = "Int" /\ c[2][2] \in {8, 16, 32, 64} -> Is(IntText(c[2], c[3]))
    [] c[1] \in {43, 50} /\ c[2][1] = "Float" /\ c[2][2] \in {32, 64} -> <<"f", Pieces(c[3])>>
    [] OTHER -> None
------------------------------------------------------------------ \* operands
(* x: [lev, opt, D: id -> value, names: <<id, text>>, labels: ids, sets: id -> name of the set]  *)
NamesOf(x, id) == IF x.lev < 2 THEN {} ELSE {x.names[k][2] : k \in {j \in DOMAIN x.names : x.names[j][1] = id}}
Named2(x, id) == {n \in NamesOf(x, id) : Len(n) > 1}
\* the name of something: one letter names may be left out
IdText(w) == "%" \o Num32(w)
Ref(x, w) ==
  LET id == Lo(w)  ns == NamesOf(x, id)  d == IF x.lev = 2 /\ id \in DOMAIN x.D THEN x.D[id] ELSE TY!Bad
      plain == IF d # TY!Bad /\ TY!IsType(d) /\ Bit(x.opt, TypeName) /\ TypeText(d) # "" THEN Is(TypeText(d))
               ELSE IF d # TY!Bad /\ ~TY!IsType(d) /\ Bit(x.opt, ConstantData) /\ ConstText(d) # None THEN ConstText(d)
               ELSE Is(IdText(w))
      called == {"%" \o n : n \in ns} IN
  IF id \in x.labels THEN Of((IF Bit(x.opt, OperandName) \/ Bit(x.opt, InstructionName) THEN called ELSE {}) \cup
                             (IF Named2(x, id) # {} /\ Bit(x.opt, OperandName) /\ Bit(x.opt, InstructionName) THEN {} ELSE {IdText(w)}))
  ELSE IF ~Bit(x.opt, InstructionName) \/ ns = {} THEN plain
  ELSE IF Named2(x, id) # {} /\ Named2(x, id) = ns THEN Of(called)
  ELSE IF plain[1] = "s" THEN Of(called \cup plain[2]) ELSE <<"any">>
EnumNames(k, w) == {Kind(k).vals[j].n : j \in {i \in DOMAIN Kind(k).vals : Kind(k).vals[i].v = w}}
RECURSIVE Joined(_, _)
Joined(k, S) == IF S = {} THEN {} ELSE UNION {LET r == Joined(k, S \ {v}) IN IF r = {} THEN EnumNames(k, v) ELSE {n \o "|" \o t : n \in EnumNames(k, v), t \in r} : v \in S}
Enumerant(x, k, w) ==
  LET ns == EnumNames(k, w)  bits == IF Kind(k).cat = 0 THEN {Kind(k).vals[j].v : j \in {i \in DOMAIN Kind(k).vals : Kind(k).vals[i].v # <<0, 0>> /\ HasBit(w, Kind(k).vals[i].v)}} ELSE {} IN
  IF ~Bit(x.opt, OperandName) THEN Is(Num32(w))
  ELSE IF ns # {} THEN Of(ns)
  ELSE IF bits # {} /\ Cardinality(bits) <= 4 THEN Of({Num32(w)} \cup Joined(k, bits)) ELSE Is(Num32(w))
(* one operand at the front of ws -> <<words it takes, expected tokens>>; the words are known to divide by the grammar *)
RECURSIVE TOne(_, _, _, _)
RECURSIVE TMany(_, _, _, _, _)
RECURSIVE TP(_, _, _, _, _)
TMany(ks, ws, x, c, acc) ==
  IF ks = <<>> THEN acc
  ELSE LET r == TOne(Head(ks), SubSeq(ws, acc[1] + 1, Len(ws)), x, c) IN TMany(Tail(ks), ws, x, c, <<acc[1] + r[1], acc[2] \o r[2]>>)
ExtName(x, c, w) ==
  LET set == Lo(c[4]) IN
  IF x.lev = 0 \/ ~(set \in DOMAIN x.sets) THEN Is(Num32(w))
  ELSE LET T == IF x.sets[set] = "GLSL.std.450" THEN G.glsl ELSE IF x.sets[set] = "OpenCL.std" THEN G.opencl ELSE <<>>
           ns == {T[j].n : j \in {i \in DOMAIN T : w[1] = 0 /\ T[i].op = w[2]}} IN
       IF ns = {} THEN Is(Num32(w)) ELSE Of(ns \cup (IF Bit(x.opt, OperandName) THEN {} ELSE {Num32(w)}))
TOne(k, ws, x, c) ==
  CASE k = KResult -> <<1, <<>>>>
    [] Kind(k).cat = 2 /\ k # KResult -> <<1, <<Ref(x, ws[1])>>>>
    [] k = KString -> <<Taken(ws), <<Is("\"" \o Text(StrOf(ws)) \o "\"")>>>>
    [] k = KNumber -> LET d == IF x.lev = 2 /\ OpOf(c) \in {43, 50} THEN x.D[Lo(c[3])] ELSE TY!Bad IN
         IF d # TY!Bad /\ Bit(x.opt, ConstantData) /\ ConstText(d) # None THEN <<Len(ws), <<ConstText(d)>>>> ELSE <<Len(ws), [j \in DOMAIN ws |-> Is(Num32(ws[j]))]>>
    [] k = KSpecOp ->
         LET o == ws[1][2]  t == TP(Args(o), Tail(ws), x, c, <<>>) IN
         <<Len(ws), <<Is(Num32(ws[1])), Is("[")>> \o (IF Bit(x.opt, OperationName) THEN <<Is(Op(o).n)>> ELSE <<>>) \o (IF Op(o).type THEN <<Ref(x, c[2])>> ELSE <<>>) \o t \o <<Is("]")>>>>
    [] Kind(k).cat = 4 -> TMany(Kind(k).bases, ws, x, c, <<0, <<>>>>)
    [] Kind(k).cat \in {0, 1} -> TMany(Params(k, ws[1]), ws, x, c, <<1, <<Enumerant(x, k, ws[1])>>>>)
    [] Kind(k).n = "LiteralExtInstInteger" -> <<1, <<ExtName(x, c, ws[1])>>>>
    [] OTHER -> <<1, <<Is(Num32(ws[1]))>>>>
TP(os, ws, x, c, acc) ==
  IF os = <<>> \/ ws = <<>> THEN acc
  ELSE LET r == TOne(os[1][1], ws, x, c) IN TP(IF os[1][2] = 1 THEN os ELSE Tail(os), SubSeq(ws, r[1] + 1, Len(ws)), x, c, acc \o r[2])
Result(x, c) ==
  LET p == ResAt(OpOf(c)) IN
  IF p = 0 THEN <<>>
  ELSE LET w == c[p + 1]  ns == NamesOf(x, Lo(w))  id == IF Bit(x.opt, ResultId) THEN {IdText(w)} ELSE {} IN
       IF Bit(x.opt, InstructionName) /\ ns # {} THEN <<Of({"%" \o n : n \in ns} \cup (IF Named2(x, Lo(w)) = ns THEN {} ELSE id))>>
       ELSE IF id # {} THEN <<Of(id)>> ELSE <<>>
Line(x, c) == Result(x, c) \o (IF Bit(x.opt, OperationName) THEN <<Is(Op(OpOf(c)).n)>> ELSE <<>>) \o TP(Op(OpOf(c)).o, Tail(c), x, c, <<>>)
\* nums: <<text, bits as float, bits as double>> of the texts that are numbers
IsNan(b) == IF Len(b) = 2 THEN b[1] % 32768 > 32640 \/ (b[1] % 32768 = 32640 /\ b[2] # 0) ELSE b[1] % 32768 > 32752 \/ (b[1] % 32768 = 32752 /\ \E j \in 2..4 : b[j] # 0)
FloatIs(t, b, nums) == \E j \in DOMAIN nums : nums[j][1] = t /\ LET v == IF Len(b) = 2 THEN nums[j][2] ELSE nums[j][3] IN v = b \/ (IsNan(b) /\ IsNan(v))
Fits(t, e, nums) == CASE e[1] = "any" -> TRUE [] e[1] = "s" -> t \in e[2] [] e[1] = "f" -> FloatIs(t, e[2], nums)
LineIs(toks, exp, nums) == Len(toks) = Len(exp) /\ \A k \in DOMAIN toks : Fits(toks[k], exp[k], nums)
------------------------------------------------------------------
Env(e, f) ==
  LET N == Nodes(f)  nm == IF e.lev = 2 THEN Named(N) ELSE <<>>  imp == SelectSeq(N, LAMBDA n : n[2] = 11) IN
  [lev |-> e.lev, opt |-> e.opt, D |-> IF e.lev = 2 THEN Values(N) ELSE [y \in {} |-> <<>>],
   names |-> LET S == SelectSeq(nm, LAMBDA y : y[2] = -1) IN [k \in DOMAIN S |-> <<S[k][1], Text(S[k][3])>>],
   labels |-> {N[k][1] : k \in {j \in DOMAIN N : N[j][2] = OpLabel}},
   sets |-> FoldLeft(LAMBDA D, n : (n[1] :> Text(Str(Tail(n[3])))) @@ D, [y \in {} |-> ""], imp)]
PreLines(w, gen) == <<<<"#", "SPIR-V", "Version", ToString(w[2][1] % 256) \o "." \o ToString(w[2][2] \div 256)>>,
                 <<"#", "Generator", ToString(gen[1]), "|", ToString(gen[2])>>, <<"#", "Bound", Num32(w[4])>>, <<"#", "Schema", Num32(w[5])>>, <<>>>>
\* e.lines: tokens of every line printed for the module whose words are e.w
Printed(e) ==
  LET f == Facts(e.w)  x == Env(e, f)  pre == IF Bit(e.opt, Preamble) THEN 5 ELSE 0  n == Len(e.lines) IN
  /\ Chk(Clear(f) /\ ~Malformed(f), "generated binary is not clear")
  /\ Chk(e.ok, "printing fails")
  /\ Chk(pre = 0 \/ SubSeq(e.lines, 1, 5) = PreLines(e.w, e.gen), <<"preamble", e.lines>>)
  /\ \A k \in 1..(n - pre) : Chk(k <= Len(f.C) /\ LineIs(e.lines[k + pre], Line(x, f.C[k]), e.nums), <<"line", k, e.lines[k + pre], IF k <= Len(f.C) THEN Line(x, f.C[k]) ELSE <<>>>>)
  /\ Chk(n - pre = Len(f.C), <<"instructions", Len(f.C), "lines", n - pre>>)
  /\ Chk(e.color, "colors change the text")
  /\ Chk(e.single, "instructions printed on their own differ")
=============================================================================
