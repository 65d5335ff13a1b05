------------------------------ MODULE Trace_Files ------------------------------
(* recorded histories of writers, readers and modules written to them            *)
EXTENDS Files, TraceBase
VARIABLES l, fs, w, r
e == Trace[l]
TraceInit == l = 1 /\ fs = <<>> /\ w = NoWriter /\ r = NoReader
\* the files there are, except one that is open: [name, bytes]
FS(xs) == [n \in {xs[k][1] : k \in DOMAIN xs} |-> LET k == CHOOSE k \in DOMAIN xs : xs[k][1] = n IN xs[k][2]]
\* changes since the last event
Changed(f, g, open) == \A n \in DOMAIN f : n = open \/ n \notin {e.files[k][1] : k \in DOMAIN e.files} => f[n] = g[n]
Same(f2, open) == LET g == FS(e.files) IN
  /\ \A n \in DOMAIN f2 : n # open => IF n \in DOMAIN g THEN Check(f2[n] = g[n], <<e.ev, n, "holds", g[n], "expected", f2[n]>>) ELSE Check(f2[n] = fs[n], <<e.ev, n, "did not change, expected", f2[n]>>)
Begin == e.ev = "begin" /\ fs' = FS(e.files) /\ w' = NoWriter /\ r' = NoReader
WStep ==
  \/ /\ e.ev = "wnew" /\ ~w.live
     /\ LET o == WOpen(fs, [NoWriter EXCEPT !.live = TRUE], e.path) IN Check(e.ret = (o.w.file # ""), <<"open", e.path, e.ret>>) /\ fs' = o.fs /\ w' = o.w
  \/ /\ e.ev = "open" /\ w.live
     /\ LET o == WOpen(fs, w, e.path) IN Check(e.ret = o.ret, <<"open", e.path, e.ret>>) /\ fs' = o.fs /\ w' = o.w
  \* a word that is not taken is not written
  \/ e.ev = "put" /\ w.live /\ Check(e.ret \/ e.bounded, <<"a word was not taken">>) /\ w' = (IF e.ret THEN WPut(w, e.word) ELSE w) /\ UNCHANGED fs
  \/ e.ev = "close" /\ w.live /\ LET c == WClose(fs, w) IN fs' = c.fs /\ w' = c.w
  \/ e.ev = "wdrop" /\ w.live /\ LET c == WClose(fs, w) IN fs' = c.fs /\ w' = NoWriter
Writes == WStep /\ Check(e.isopen = (w'.file # ""), <<"isOpen", e.isopen>>) /\ Same(fs', w'.file) /\ UNCHANGED r
Reads == /\ e.ev \in {"rnew", "read"}
  /\ LET x == RRead(fs, [r EXCEPT !.live = TRUE], e.path, e.off, e.len) IN
     \* a window without words may be taken for a failure
     /\ (x.sure /\ x.buf # <<>>) => Check(e.ret /\ e.truth, <<"a window that is there was not read", e.path, e.off, e.len>>)
     /\ ~x.sure => Check(~e.ret /\ ~e.truth, <<"a window that is not there was read", e.path, e.off, e.len, e.ret, e.truth>>)
     /\ Check(e.truth = (x.buf # <<>>), <<"bool", e.truth>>)
     /\ r' = x
  /\ Same(fs, w.file) /\ UNCHANGED <<fs, w>>
Get == /\ e.ev = "get" /\ r.live
  /\ Check(e.ret = RMore(r), <<"get", e.ret, "at", r.pos, "of", Len(r.buf)>>) /\ (e.ret => Check(e.word = Got(r), <<"got", e.word, "expected", Got(r)>>))
  /\ r' = RGet(r) /\ Same(fs, w.file) /\ UNCHANGED <<fs, w>>
\* a module of n words is written, in several ways, all words are the same; a writer that refuses word k + 1
Module == /\ e.ev = "module"
  /\ Check(e.file = e.words /\ e.vector = e.words /\ e.back = e.words, <<"module written to a file, to a vector, read back", Len(e.words)>>)
  /\ Check(e.fileret /\ e.vectorret /\ e.readret, <<"a module could not be written or read back", e.fileret, e.vectorret, e.readret>>)
  /\ UNCHANGED <<fs, w, r>>
\* taken: how many words were taken; same: they are the first of all
Refused == /\ e.ev = "refused"
  /\ Check(e.ret = (e.at >= e.words), <<"the writer refused a word after", e.at, "of", e.words, "and write returned", e.ret>>)
  /\ Check(e.same /\ e.taken = (IF e.at < e.words THEN e.at ELSE e.words), <<"words delivered", e.taken, "of", e.at>>)
  /\ UNCHANGED <<fs, w, r>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Writes \/ Reads \/ Get \/ Module \/ Refused)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, fs, w, r>>
================================================================================
