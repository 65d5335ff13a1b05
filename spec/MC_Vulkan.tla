------------------------------ MODULE MC_Vulkan -------------------------------
(* Modules of a few resource variables, decorated in any order.                  *)
EXTENDS Vulkan, Json
CONSTANTS Vars, Rich, Emit
VARIABLES s, hist
vars == <<s, hist>>
F32 == <<"Float", 32>>
Img(dim, access) == <<"Img", F32, dim, 0, 0, 0, access, 0, -1>>
S1 == <<"Struct", <<F32>>>>
Resources == {<<0, <<"Sampler">>>>, <<0, Img(1, 1)>>, <<0, <<"SImg", Img(1, 1)>>>>, <<0, <<"Arr", <<"Sampler">>, 2>>>>, <<0, <<"Arr", Img(1, 1), 3>>>>, <<2, S1>>, <<12, S1>>}
             \cup (IF Rich THEN {<<0, Img(1, 2)>>, <<0, Img(5, 1)>>, <<0, Img(5, 2)>>, <<0, Img(6, 2)>>, <<0, <<"RArr", Img(1, 1)>>>>, <<0, <<"T", 5341>>>>, <<9, S1>>, <<1, F32>>, <<2, <<"Arr", S1, 2>>>>, <<0, <<"Arr", <<"RArr", <<"Sampler">>>>, 2>>>>} ELSE {})
Do(op) == s' = Step(s, op) /\ hist' = Append(hist, op)
Init == s = Start /\ hist = <<>>
Add == Len(s.vars) < Vars /\ \E r \in Resources : Do(<<"var", r[1], r[2]>>)
Set == Len(s.vars) > 0 /\ \E i \in DOMAIN s.vars : s.vars[i].set = -1 /\ \E x \in {0, 1} : Do(<<"set", i, x>>)
Bind == Len(s.vars) > 0 /\ \E i \in DOMAIN s.vars : s.vars[i].bind = -1 /\ \E x \in {0, 1} : Do(<<"bind", i, x>>)
Buf == Len(s.vars) > 0 /\ s.buf = {} /\ (\E i \in DOMAIN s.vars : Peel(s.vars[i].t) = S1) /\ Do(<<"buf", S1>>)
Next == Add \/ Set \/ Bind \/ Buf
Spec == Init /\ [][Next]_vars
D(i) == Descriptor(s.vars, s.buf, i)
\* sharing is mutual; only what may be combined is; a combination has both sides
Mutual == \A i, j \in DOMAIN s.vars : Shares(s.vars[i], s.vars[j]) = Shares(s.vars[j], s.vars[i])
Sides == \A i \in DOMAIN s.vars : D(i) = Combined => LET t == Peel(s.vars[i].t) IN
           \/ Kind(t) = "SImg"
           \/ \E j \in DOMAIN s.vars : j # i /\ Shares(s.vars[i], s.vars[j]) /\ D(j) = Combined /\ (Kind(t) = "Sampler" \/ Kind(Peel(s.vars[j].t)) = "Sampler")
\* arrays of a resource are that resource
Elements == \A i \in DOMAIN s.vars : D(i) = Descriptor([s.vars EXCEPT ![i].t = Peel(@)], s.buf, i)
\* what one variable is does not depend on variables elsewhere
Local == \A i \in DOMAIN s.vars : D(i) = Descriptor([j \in DOMAIN s.vars |-> IF j = i \/ Shares(s.vars[i], s.vars[j]) THEN s.vars[j] ELSE [sc |-> 1, t |-> F32, set |-> -1, bind |-> -1]], s.buf, i)
View == s
Out == (Emit /\ Len(s.vars) = Vars) => PrintT("S " \o ToJson(hist))
===============================================================================
