-------------------------------- MODULE Tools ---------------------------------
(* The command line tools: what a command line asks for (a plan), what the       *)
(* reflector prints for a plan, and which files a run may touch.                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
\* ----------------------------------------------------------------- disassembler
\* two tabulators
Default == "default"
DisStart == [file |-> "", assign |-> FALSE, serialize |-> FALSE, colors |-> FALSE, instr |-> TRUE, operands |-> TRUE, preamble |-> TRUE, tabs |-> Default]
RECURSIVE DisFrom(_, _, _)
DisFrom(a, k, p) ==
  IF k > Len(a) THEN p
  ELSE IF p.file = "" THEN DisFrom(a, k + 1, [p EXCEPT !.file = a[k]])
  ELSE IF a[k] = "-tabs" /\ k < Len(a) THEN DisFrom(a, k + 2, [p EXCEPT !.tabs = a[k + 1]])
  ELSE DisFrom(a, k + 1,
    CASE a[k] = "-serialize" -> [p EXCEPT !.serialize = TRUE]
      [] a[k] \in {"-assignIDs", "-assignids"} -> [p EXCEPT !.assign = TRUE]
      [] a[k] = "-colors" -> [p EXCEPT !.colors = TRUE]
      [] a[k] = "-noinstrnames" -> [p EXCEPT !.instr = FALSE]
      [] a[k] = "-noopnames" -> [p EXCEPT !.operands = FALSE]
      [] a[k] = "-nopreamble" -> [p EXCEPT !.preamble = FALSE]
      [] OTHER -> p)
DisPlan(a) == DisFrom(a, 1, DisStart)
\* -------------------------------------------------------------------- reflector
Decorations == <<<<"RelaxedPrecision", 0>>, <<"SpecId", 1>>, <<"Block", 2>>, <<"BufferBlock", 3>>, <<"RowMajor", 4>>, <<"ColMajor", 5>>, <<"ArrayStride", 6>>, <<"MatrixStride", 7>>, <<"GLSLShared", 8>>,
  <<"GLSLPacked", 9>>, <<"CPacked", 10>>, <<"BuiltIn", 11>>, <<"NoPerspective", 13>>, <<"Flat", 14>>, <<"Patch", 15>>, <<"Centroid", 16>>, <<"Sample", 17>>, <<"Invariant", 18>>, <<"Restrict", 19>>,
  <<"Aliased", 20>>, <<"Volatile", 21>>, <<"Constant", 22>>, <<"Coherent", 23>>, <<"NonWritable", 24>>, <<"NonReadable", 25>>, <<"Uniform", 26>>, <<"UniformId", 27>>, <<"SaturatedConversion", 28>>, <<"Stream", 29>>,
  <<"Location", 30>>, <<"Component", 31>>, <<"Index", 32>>, <<"Binding", 33>>, <<"DescriptorSet", 34>>, <<"Offset", 35>>, <<"XfbBuffer", 36>>, <<"XfbStride", 37>>, <<"FuncParamAttr", 38>>, <<"FPRoundingMode", 39>>,
  <<"FPFastMathMode", 40>>, <<"LinkageAttributes", 41>>, <<"NoContraction", 42>>, <<"InputAttachmentIndex", 43>>, <<"Alignment", 44>>, <<"MaxByteOffset", 45>>, <<"AlignmentId", 46>>, <<"MaxByteOffsetId", 47>>>>
DecorationNames == {Decorations[k][1] : k \in DOMAIN Decorations}
KindOf(name) == LET k == CHOOSE k \in DOMAIN Decorations : Decorations[k][1] = name IN Decorations[k][2]
ReflStart == [file |-> "", id |-> "", var |-> "", deco |-> FALSE, kinds |-> <<>>, funcs |-> FALSE, vars |-> FALSE, types |-> FALSE, size |-> FALSE, colors |-> FALSE]
RECURSIVE ReflFrom(_, _, _)
ReflFrom(a, k, p) ==
  IF k > Len(a) THEN p
  ELSE IF p.file = "" THEN ReflFrom(a, k + 1, [p EXCEPT !.file = a[k]])
  ELSE IF a[k] = "-id" /\ k < Len(a) THEN ReflFrom(a, k + 2, [p EXCEPT !.id = a[k + 1]])
  ELSE IF a[k] = "-var" /\ k < Len(a) THEN ReflFrom(a, k + 2, [p EXCEPT !.var = a[k + 1]])
  ELSE IF a[k] = "-deco" /\ k < Len(a) /\ a[k + 1] \in DecorationNames THEN ReflFrom(a, k + 2, [p EXCEPT !.deco = TRUE, !.kinds = Append(@, KindOf(a[k + 1]))])
  ELSE ReflFrom(a, k + 1,
    CASE a[k] = "-deco" -> [p EXCEPT !.deco = TRUE]
      [] a[k] = "-funcs" -> [p EXCEPT !.funcs = TRUE]
      [] a[k] = "-vars" -> [p EXCEPT !.vars = TRUE]
      [] a[k] = "-types" -> [p EXCEPT !.types = TRUE]
      [] a[k] = "-localsize" -> [p EXCEPT !.size = TRUE]
      [] a[k] = "-colors" -> [p EXCEPT !.colors = TRUE]
      [] OTHER -> p)
ReflPlan(a) == ReflFrom(a, 1, ReflStart)
\* what it prints, for the facts e of a module: lines, without indentation
Models == <<<<0, "Vertex">>, <<1, "TessellationControl">>, <<2, "TessellationEvaluation">>, <<3, "Geometry">>, <<4, "Fragment">>, <<5, "GLCompute">>, <<6, "Kernel">>, <<5267, "TaskNV">>, <<5268, "MeshNV">>,
  <<5313, "RayGenerationKHR">>, <<5314, "IntersectionKHR">>, <<5315, "AnyHitKHR">>, <<5316, "ClosestHitKHR">>, <<5317, "MissKHR">>, <<5318, "CallableKHR">>>>
ModelName(m) == LET k == CHOOSE k \in DOMAIN Models : Models[k][1] = m IN Models[k][2]
Descriptors == <<<<0, "SAMPLER">>, <<1, "COMBINED_IMAGE_SAMPLER">>, <<2, "SAMPLED_IMAGE">>, <<3, "STORAGE_IMAGE">>, <<4, "UNIFORM_TEXEL_BUFFER">>, <<5, "STORAGE_TEXEL_BUFFER">>, <<6, "UNIFORM_BUFFER">>, <<7, "STORAGE_BUFFER">>,
  <<8, "UNIFORM_BUFFER_DYNAMIC">>, <<9, "STORAGE_BUFFER_DYNAMIC">>, <<10, "INPUT_ATTACHMENT">>, <<1000138000, "INLINE_UNIFORM_BLOCK_EXT">>, <<1000150000, "ACCELERATION_STRUCTURE_KHR">>, <<1000165000, "ACCELERATION_STRUCTURE_NV">>>>
DescriptorText(d) == IF \E k \in DOMAIN Descriptors : Descriptors[k][1] = d THEN " [VK_DESCRIPTOR_TYPE_" \o Descriptors[CHOOSE k \in DOMAIN Descriptors : Descriptors[k][1] = d][2] \o "]" ELSE ""
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
If(c, s) == IF c THEN s ELSE <<>>
Plain == {71, 72}  Other == {332, 5632, 5633}
\* x: an instruction [id, op, named, name, text, d, type]
VarLine(x) == (IF ~x.named THEN "[UNNAMED]:" ELSE IF x.name = "" THEN "[EMPTY]:" ELSE x.name \o ":") \o " " \o x.text \o (IF x.op = 59 THEN DescriptorText(x.d) ELSE "")
DecsOf(e, id) == SelectSeq(e.decs, LAMBDA d : d.target = id /\ d.op \in Plain \cup Other)
Listed(e, xs) == Concat([k \in DOMAIN xs |-> <<VarLine(xs[k])>> \o [j \in DOMAIN DecsOf(e, xs[k].id) |-> DecsOf(e, xs[k].id)[j].brief]])
\* the selected kinds, decorations with ids or strings: ops
Chosen(p, ds, ops) == IF p.kinds = <<>> THEN [j \in DOMAIN ds |-> ds[j].text]
  ELSE Concat([j \in DOMAIN ds |-> Concat([k \in DOMAIN p.kinds |-> IF ds[j].op \in ops /\ ds[j].kind = p.kinds[k] THEN <<ds[j].text>> ELSE <<>>])])
FunLines(f) == <<f.text, f.type>> \o f.params
FaceLine(v) == v.text \o (IF v.named THEN " [" \o v.name \o "]" ELSE "")
EpLines(f) == <<f.name \o " [EP " \o ModelName(f.model) \o "]", f.ep>> \o FunLines(f) \o [k \in DOMAIN f.face |-> FaceLine(f.face[k])]
Find(e, what) == SelectSeq(e.all, LAMBDA x : (what[1] = "var" /\ x.named /\ x.name = what[2]) \/ (what[1] = "id" /\ x.id = what[2]))
\* the instruction asked for: <<>> none asked, or a sequence of candidates (empty: there is none)
Asked(e, p) == IF p.var # "" THEN <<Find(e, <<"var", p.var>>)>> ELSE IF p.id # "" THEN <<Find(e, <<"id", e.asked>>)>> ELSE <<>>
Succeeds(e, p) == Asked(e, p) = <<>> \/ Asked(e, p)[1] # <<>>
InstrLines(e, p, x, ops) == <<VarLine(x)>> \o If(x.type # "", <<x.type>>) \o Chosen(p, DecsOf(e, x.id), ops)
ReflLines(e, p, ops) ==
  If(p.size /\ e.size # <<>>, <<"LocalSize: x " \o e.size[1] \o " y " \o e.size[2] \o " z " \o e.size[3]>>)
  \o If(p.funcs, <<"Functions:">> \o Concat([k \in DOMAIN e.eps |-> EpLines(e.eps[k])]) \o Concat([k \in DOMAIN e.funs |-> <<IF e.funs[k].named THEN e.funs[k].name ELSE "[UNNAMED]">> \o FunLines(e.funs[k])]))
  \o If(p.vars, <<"Global Variables:">> \o Listed(e, e.globals))
  \o If(p.types, <<"Types and Constants:">> \o Listed(e, e.types))
  \o If(p.var # "", <<p.var \o ":">>)
  \o If(p.deco, <<"Decorations:">> \o Chosen(p, e.decs, ops))
  \o (IF Asked(e, p) = <<>> THEN <<>> ELSE InstrLines(e, p, Asked(e, p)[1][1], ops))
\* empty lines are not told
Told(s) == SelectSeq(s, LAMBDA x : x # "")
\* ----------------------------------------------------------------------- linker
Flags == <<<<"-ImportMissingTypes", "-types">>, <<"-ImportMissingConstants", "-constants">>, <<"-ImportMissingExtensionSets", "-extsets">>, <<"-ImportReferencedDecorations", "-refdecos">>, <<"-ImportReferencedNames", "-refnames">>,
  <<"-ImportReferencedFunctions", "-reffuncs">>, <<"-ImportReferencedVariables", "-refvars">>, <<"-ImportReferencedStrings", "-refstrings">>, <<"-", "-">>, <<"-RemoveLinkageCapability", "-rmcap">>,
  <<"-AutoAddRequiredCapabilitiesAndExtensions", "-addcaps">>, <<"-UpdateEntryPointGlobalVarInterface", "-variface">>, <<"-CopyOpSourceStringInstructions", "-srcstrings">>, <<"-CopyOpLineInstructions", "-lines">>, <<"-CopyOpModuleProcessedInstructions", "-processed">>>>
FlagOf(t) == {k \in DOMAIN Flags : t \in {Flags[k][1], Flags[k][2]} /\ t # "-"}
\* ids are given on the fly, always: bit 8
AssignIds == 9
LinkStart == [libs |-> <<>>, cons |-> "", out |-> "", patch |-> "", flags |-> {AssignIds}, targets |-> <<>>, failed |-> FALSE, again |-> FALSE]
\* files that can be read as modules, and what can be found in the one that is patched, by name or number
Readable == {"shader.spv", "liba.spv", "libb.spv", "cons.spv", "other.spv"}
Symbols == {"fun", "aux", "glob", "#fun", "#glob"}
\* the linker does not tell upper from lower case
Canon(x) == CASE x = "-LIB" -> "-lib" [] x = "-L" -> "-l" [] x = "-C" -> "-c" [] x = "-Out" -> "-out" [] x = "-E" -> "-e" [] x = "-P" -> "-p" [] x = "-Types" -> "-types" [] x = "-REFFUNCS" -> "-reffuncs" [] x = "-AUTO" -> "-auto"
  [] x = "-importmissingtypes" -> "-ImportMissingTypes" [] x = "-importReferencedFunctions" -> "-ImportReferencedFunctions" [] OTHER -> x
Fail(p) == [p EXCEPT !.failed = TRUE]
RECURSIVE LinkFrom(_, _, _)
LinkFrom(a, k, p) ==
  IF k > Len(a) \/ p.failed THEN p
  ELSE LET t == Canon(a[k])  Needs == IF t \in {"-p", "-patchspv", "-l", "-lib", "-c", "-consumer", "-o", "-out"} THEN 1 ELSE IF t \in {"-i", "-import", "-e", "-export"} THEN 2 ELSE 0 IN
  IF k + Needs > Len(a) THEN Fail(p)
  ELSE IF t \in {"-l", "-lib"} THEN (IF a[k + 1] \in Readable THEN LinkFrom(a, k + 2, [p EXCEPT !.libs = Append(@, a[k + 1])]) ELSE Fail(p))
  ELSE IF t \in {"-c", "-consumer"} THEN (IF a[k + 1] \in Readable THEN LinkFrom(a, k + 2, [p EXCEPT !.cons = a[k + 1], !.again = @ \/ p.cons # ""]) ELSE Fail(p))
  ELSE IF t \in {"-p", "-patchspv"} THEN (IF a[k + 1] \in Readable THEN LinkFrom(a, k + 2, [p EXCEPT !.patch = a[k + 1], !.again = @ \/ p.patch # ""]) ELSE Fail(p))
  ELSE IF t \in {"-o", "-out"} THEN LinkFrom(a, k + 2, [p EXCEPT !.out = a[k + 1]])
  ELSE IF t \in {"-i", "-import"} THEN (IF p.patch # "" /\ a[k + 1] \in Symbols THEN LinkFrom(a, k + 3, [p EXCEPT !.targets = Append(@, <<"import", a[k + 1], a[k + 2], 0>>)]) ELSE Fail(p))
  ELSE IF t \in {"-e", "-export"} THEN (IF p.patch # "" /\ a[k + 1] \in Symbols
       THEN LET v == k + 3 <= Len(a) /\ a[k + 3] = "-vars" IN LinkFrom(a, IF v THEN k + 4 ELSE k + 3, [p EXCEPT !.targets = Append(@, <<"export", a[k + 1], a[k + 2], IF v THEN 1 ELSE 0>>)]) ELSE Fail(p))
  ELSE IF t \in {"-AllOptions", "-auto"} THEN LinkFrom(a, k + 1, [p EXCEPT !.flags = 1..15])
  ELSE LinkFrom(a, k + 1, [p EXCEPT !.flags = @ \cup FlagOf(t)])
LinkPlan(a) == LinkFrom(a, 1, LinkStart)
\* what a plan comes down to: fail, patch, link, nothing; free: no claim (no consumer, a target that is patched twice, two consumers or two modules to patch)
Job(p) == IF p.again THEN "free"
  ELSE IF p.failed THEN "fail"
  ELSE IF p.targets # <<>> THEN (IF \E j, k \in DOMAIN p.targets : j # k /\ p.targets[j][2] \in {p.targets[k][2], "#" \o p.targets[k][2]} THEN "free" ELSE "patch")
  ELSE IF p.libs # <<>> THEN (IF p.cons = "" THEN "free" ELSE "link") ELSE "nothing"
Target(p) == IF p.out # "" THEN p.out ELSE IF Job(p) = "patch" THEN p.patch ELSE p.cons
===============================================================================
