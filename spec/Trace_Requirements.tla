-------------------------- MODULE Trace_Requirements ---------------------------
(* After every event the declarations of the module are listed.                 *)
EXTENDS Requirements, TraceBase
VARIABLES l, caps, exts, imps, ver
tvars == <<l, caps, exts, imps, ver>>
e == Trace[l]
Ops == SetOf(e.ops)
\* each entry is <<key, key its instruction states>>
Lists(s, S) == Len(s) = Cardinality(S) /\ {x[1] : x \in SetOf(s)} = S /\ \A x \in SetOf(s) : x[1] = x[2]
New(s) == {x[1] : x \in SetOf(s)}
Observed ==
  /\ caps' = New(e.caps) /\ exts' = New(e.exts) /\ imps' = New(e.imps) /\ ver' = e.ver
  /\ Check(Lists(e.caps, caps') /\ Lists(e.exts, exts') /\ Lists(e.imps, imps'), <<"declared twice or differently", e.caps, e.exts, e.imps>>)
Same(c, x, i, v) == Check(c \/ caps' = caps, <<"capabilities changed", caps, caps'>>) /\ Check(x \/ exts' = exts, <<"extensions changed", exts, exts'>>)
                    /\ Check(i \/ imps' = imps, <<"imports changed", imps, imps'>>) /\ Check(v \/ ver' = ver, <<"version changed", ver, ver'>>)
AddCap == e.ev = "cap" /\ Same(TRUE, FALSE, FALSE, FALSE) /\
  LET lo == caps \cup (IF e.dep THEN Least(e.c) ELSE {e.c})  hi == caps \cup (IF e.dep THEN Most(e.c) ELSE {e.c}) IN
  Check(lo \subseteq caps' /\ caps' \subseteq hi, <<"addCapability", e.c, e.dep, "missing", lo \ caps', "not wanted", caps' \ hi>>)
DelCap == e.ev = "uncap" /\ Same(TRUE, FALSE, FALSE, FALSE) /\ Check(e.ret = (e.c \in caps) /\ caps' = caps \ {e.c}, <<"removing capability", e.c, e.ret, caps, caps'>>)
HasCap == e.ev = "hascap" /\ Same(FALSE, FALSE, FALSE, FALSE) /\ Check(e.ret = (e.c \in caps), <<"checkCapability", e.c, e.ret, caps>>)
AddExt == e.ev = "ext" /\ Same(FALSE, TRUE, FALSE, FALSE) /\ Check(exts' = exts \cup {e.s}, <<"addExtension", e.s, exts, exts'>>)
DelExt == e.ev = "unext" /\ Same(FALSE, TRUE, FALSE, FALSE) /\ Check(e.ret = (e.s \in exts) /\ exts' = exts \ {e.s}, <<"removing extension", e.s, e.ret, exts, exts'>>)
\* the import returned is the one that is listed under the name
AddImp == e.ev = "imp" /\ Same(FALSE, FALSE, TRUE, FALSE) /\ Check(imps' = imps \cup {e.s} /\ e.ret, <<"addExtensionInstructionImport", e.s, imps, imps'>>)
GetImp == e.ev = "getimp" /\ Same(FALSE, FALSE, FALSE, FALSE) /\ Check(e.ret = (e.s \in imps), <<"getExtensionInstructionImport", e.s, e.ret, imps>>)
DelImp == e.ev = "unimp" /\ Same(FALSE, FALSE, TRUE, FALSE) /\ Check(e.ret = (e.s \in imps) /\ imps' = imps \ {e.s}, <<"removing import", e.s, e.ret, imps, imps'>>)
SetVer == e.ev = "ver" /\ Same(FALSE, FALSE, FALSE, TRUE) /\ Check(ver' = e.v, <<"setSpvVersion", e.v, ver'>>)
Place == e.ev = "op" /\ Same(FALSE, FALSE, FALSE, FALSE)
CapsNow == Check(Covered(caps', Ops), <<"capabilities", caps', "do not cover", {o \in Ops : ~Covered(caps', {o})}>>)
           /\ Check(CapsWithin(caps, caps', Ops), <<"capabilities lost", caps \ caps', "new", caps' \ caps>>)
ExtsNow(v) == Check(ExtsCovered(exts', v, Ops), <<"extensions", exts', "do not cover", {o \in Ops : ~ExtsCovered(exts', v, {o})}>>)
           /\ Check(ExtsWithin(exts, exts', Ops), <<"extensions lost", exts \ exts', "new", exts' \ exts>>)
Final == e.ev = "fin" /\ Same(TRUE, TRUE, FALSE, TRUE) /\ CapsNow /\ ExtsNow(ver') /\ Check(VerOk(ver, ver', exts', Ops), <<"version", ver, ver', "needed", Needed(exts', Ops)>>)
Plain == e.ev = "plain" /\ Same(FALSE, FALSE, FALSE, FALSE)   \* finalised without grammar
ReqCaps == e.ev = "reqcaps" /\ Same(TRUE, FALSE, FALSE, FALSE) /\ CapsNow
ReqExts == e.ev = "reqexts" /\ Same(FALSE, TRUE, FALSE, FALSE) /\ ExtsNow(AtMost(Ops))
GetVer == e.ev = "getver" /\ Same(FALSE, FALSE, FALSE, FALSE) /\ Check(VerOk(65536, e.v, exts, Ops), <<"getRequiredVersion", e.v, "needed", Needed(exts, Ops)>>)
ReqVer == e.ev = "setreq" /\ Same(FALSE, FALSE, FALSE, TRUE) /\ Check(VerOk(65536, e.v, exts, Ops) /\ ver' = e.v, <<"setRequiredVersion", e.v, ver', "needed", Needed(exts, Ops)>>)
Begin == e.ev = "begin" /\ Check(e.caps = <<>> /\ e.exts = <<>> /\ e.imps = <<>>, <<"not empty">>)
Read == e.ev = "read" /\ Check(SetOf(e.wcaps) = caps' /\ SetOf(e.wexts) = exts' /\ SetOf(e.wimps) = imps' /\ e.wver = ver', <<"read", e.wcaps, caps', e.wexts, exts', e.wimps, imps'>>)
TraceInit == l = 1 /\ caps = {} /\ exts = {} /\ imps = {} /\ ver = 0
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Observed /\
  (Begin \/ AddCap \/ DelCap \/ HasCap \/ AddExt \/ DelExt \/ AddImp \/ GetImp \/ DelImp \/ SetVer \/ Place \/ Final \/ Plain \/ ReqCaps \/ ReqExts \/ GetVer \/ ReqVer \/ Read)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
================================================================================
