------------------------------- MODULE MC_Tools -------------------------------
(* Command lines, made of units (an option and what belongs to it) in any order. *)
EXTENDS Tools, Json
CONSTANTS Units, Emit, Wide
VARIABLES tool, us
vars == <<tool, us>>
DisUnits == {<<"-serialize">>, <<"-assignIDs">>, <<"-assignids">>, <<"-noinstrnames">>, <<"-noopnames">>, <<"-nopreamble">>, <<"-colors">>, <<"-tabs", "  ">>, <<"-tabs", "-colors">>, <<"-bogus">>, <<"-tabs">>}
ReflUnits == {<<"-id", "#glob">>, <<"-id", "#fun">>, <<"-id", "#float">>, <<"-id", "999999">>, <<"-var", "glob">>, <<"-var", "main">>, <<"-var", "nobody">>, <<"-deco">>, <<"-deco", "Binding">>, <<"-deco", "DescriptorSet">>, <<"-deco", "Offset">>, <<"-deco", "Block">>,
              <<"-funcs">>, <<"-vars">>, <<"-types">>, <<"-localsize">>, <<"-colors">>, <<"-bogus">>, <<"-id">>, <<"-var">>}
AllKinds == {<<"-deco", n>> : n \in DecorationNames}
FlagUnits == UNION {{<<Flags[k][1]>>, <<Flags[k][2]>>} : k \in DOMAIN Flags \ {AssignIds}} \cup {<<"-auto">>, <<"-AllOptions">>}
\* spelled otherwise, and options that only start like one, or are the start of one
Spelled == {<<"-LIB", "liba.spv">>, <<"-L", "libb.spv">>, <<"-C", "cons.spv">>, <<"-Out", "out.spv">>, <<"-E", "fun", "@f">>, <<"-P", "shader.spv">>, <<"-Types">>, <<"-REFFUNCS">>, <<"-AUTO">>, <<"-importmissingtypes">>, <<"-importReferencedFunctions">>,
  <<"-optimize">>, <<"-cache">>, <<"-typesx">>, <<"-autoX">>, <<"-reffunc">>, <<"-ou">>, <<"-libs">>, <<"-">>, <<"fun">>}
LinkUnits == {<<"-l", "liba.spv">>, <<"-lib", "libb.spv">>, <<"-l", "bad.spv">>, <<"-lib", "missing.spv">>, <<"-c", "cons.spv">>, <<"-consumer", "cons.spv">>, <<"-c", "missing.spv">>, <<"-o", "out.spv">>, <<"-out", "out2.spv">>, <<"-p", "shader.spv">>, <<"-patchspv", "shader.spv">>, <<"-p", "bad.spv">>,
              <<"-e", "fun", "@f">>, <<"-e", "fun", "@f", "-vars">>, <<"-export", "glob", "@g">>, <<"-e", "#glob", "@g">>, <<"-i", "fun", "@f">>, <<"-import", "#fun", "fun_import">>, <<"-i", "glob", "@g">>, <<"-i", "nobody", "@n">>, <<"-e", "aux", "@a", "-vars">>,
              <<"-auto">>, <<"-AllOptions">>, <<"-verbose">>, <<"-optimize">>, <<"-PrintInstructions">>, <<"-types">>, <<"-reffuncs">>, <<"-bogus">>, <<"-o">>, <<"-e", "fun">>}
Of(t) == CASE t = "dis" -> DisUnits [] t = "refl" -> ReflUnits \cup (IF Wide THEN AllKinds ELSE {}) [] t = "link" -> LinkUnits \cup (IF Wide THEN FlagUnits \cup Spelled ELSE {})
Args(u) == Concat(u)
Files == {"shader.spv", "liba.spv", "bad.spv", "missing.spv"}
\* what most libraries need
Enough == <<"-types", "-constants", "-reffuncs", "-refvars", "-extsets">>
Init == \/ tool \in {"dis", "refl", "link"} /\ us = <<>>
        \/ Wide /\ tool = "link" /\ us \in {<<<<"-l", x>>, <<"-c", "cons.spv">>, Enough>> : x \in {"liba.spv", "libb.spv"}}
Bonus == IF Len(us) >= 3 /\ us[3] = Enough THEN 3 ELSE 0
Kinds(u) == {u[k] : k \in DOMAIN u}
\* switches that are given twice are not looked at
Again(t, x) == t = "dis" /\ x \in Kinds(us) /\ x[1] \in {"-noinstrnames", "-noopnames", "-nopreamble"}
\* -var and -id select together, one option that misses its argument takes the next
File == tool # "link" /\ us = <<>> /\ \E f \in Files : us' = <<<<f>>>> /\ UNCHANGED tool
Option == Len(us) < Units + Bonus /\ (tool # "link" => us # <<>>) /\ \E x \in Of(tool) : ~Again(tool, x) /\ us' = Append(us, x) /\ UNCHANGED tool
Next == File \/ Option
Spec == Init /\ [][Next]_vars
Swap(s, k) == [s EXCEPT ![k] = s[k + 1], ![k + 1] = s[k]]
Whole(x) == x \notin {<<"-tabs">>, <<"-id">>, <<"-var">>, <<"-deco">>, <<"-o">>, <<"-e", "fun">>}
AllWhole(u) == \A k \in DOMAIN u : Whole(u[k])
Order(p) == [p EXCEPT !.kinds = {@[k] : k \in DOMAIN @}]
SameName(x, y) == x = y \/ {x, y} \subseteq {"-l", "-lib"} \/ {x, y} \subseteq {"-o", "-out"} \/ {x, y} \subseteq {"-c", "-consumer"} \/ {x, y} \subseteq {"-p", "-patchspv"} \/ {x, y} \subseteq {"-e", "-i", "-export", "-import"}
SameOption(x, y) == SameName(IF tool = "link" THEN Canon(x[1]) ELSE x[1], IF tool = "link" THEN Canon(y[1]) ELSE y[1])
\* the order of options does not matter (except those that add up, and finding symbols after loading)
Commute == AllWhole(us) => \A k \in 1..(Len(us) - 1) :
  CASE tool = "dis" -> (k = 1 \/ SameOption(us[k], us[k + 1])) \/ DisPlan(Args(Swap(us, k))) = DisPlan(Args(us))
    [] tool = "refl" -> (k = 1 \/ (SameOption(us[k], us[k + 1]) /\ us[k][1] # "-deco")) \/ Order(ReflPlan(Args(Swap(us, k)))) = Order(ReflPlan(Args(us)))
    [] tool = "link" -> SameOption(us[k], us[k + 1]) \/ LinkPlan(Args(us)).failed \/ LinkPlan(Args(Swap(us, k))).failed \/ LinkPlan(Args(Swap(us, k))) = LinkPlan(Args(us))
\* what is unknown is ignored
Without(u) == SelectSeq(u, LAMBDA x : x \notin {<<"-bogus">>, <<"-optimize">>, <<"-cache">>, <<"-typesx">>, <<"-autoX">>, <<"-reffunc">>, <<"-ou">>, <<"-libs">>, <<"-">>, <<"fun">>})
Ignored == AllWhole(us) => CASE tool = "dis" -> DisPlan(Args(Without(us))) = DisPlan(Args(us)) [] tool = "refl" -> ReflPlan(Args(Without(us))) = ReflPlan(Args(us)) [] tool = "link" -> LinkPlan(Args(Without(us))) = LinkPlan(Args(us))
\* a linker that fails stays failed whatever follows, and one that cannot name its output does nothing
Stays == tool = "link" => (us = <<>> \/ AllWhole(us) = FALSE \/ (LinkPlan(Args(SubSeq(us, 1, Len(us) - 1))).failed => LinkPlan(Args(us)).failed))
Named == tool = "link" => LET p == LinkPlan(Args(us)) IN Job(p) \in {"patch", "link"} => Target(p) # ""
Plan == CASE tool = "dis" -> DisPlan(Args(us)) [] tool = "refl" -> ReflPlan(Args(us)) [] tool = "link" -> LinkPlan(Args(us))
\* selecting by name and by id together, and selecting twice: no claim
Claimed == (tool = "refl" => LET p == Plan IN ~(p.var # "" /\ p.id # "") /\ (p.id \in {"", "#glob", "#fun", "#float", "999999"})) /\ (tool = "link" => Job(Plan) # "free")
Out == (Emit /\ Claimed) => PrintT("S " \o ToJson(<<tool, Args(us), Plan, IF tool = "link" THEN Job(Plan) ELSE "">>))
===============================================================================
