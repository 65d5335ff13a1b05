------------------------------- MODULE MC_Files --------------------------------
(* Histories of one writer and one reader over a few files.                      *)
EXTENDS Files, Json
CONSTANTS Steps, Emit
VARIABLES fs, w, r, hist, seen
vars == <<fs, w, r, hist, seen>>
Names == {"a", "b", "odd", "none"}
Paths == {"a", "b", "dir", "nowhere/x", ""}
Sources == Names \cup {"dir", ""}
Sizes == <<<<0, 0>>, <<4, 0>>, <<0, 4>>, <<2, 4>>, <<8, 4>>, <<0, 6>>, <<6, 0>>, <<0, 400>>>>
Init == fs = [x \in Names |-> CASE x = "odd" -> <<1, 2, 3, 4, 5, 6>> [] x = "a" -> <<9, 9, 9, 9, 8, 8, 8, 8, 7, 7, 7, 7>> [] OTHER -> NoFile] /\ w = NoWriter /\ r = NoReader /\ hist = <<>> /\ seen = <<>>
Do(x) == Len(hist) < Steps /\ hist' = Append(hist, x)
\* a new writer, with a path to open or none, and room for cap words
WNew == ~w.live /\ \E p \in {"a", "b", "dir", ""} : Do(<<"wnew", p>>) /\ LET o == WOpen(fs, [NoWriter EXCEPT !.live = TRUE], p) IN fs' = o.fs /\ w' = o.w /\ UNCHANGED <<r, seen>>
Put == w.live /\ LET x == <<Len(hist), 1, 2, 3>> IN Do(<<"put", x>>) /\ w' = WPut(w, x) /\ UNCHANGED <<fs, r, seen>>
Open == w.live /\ \E p \in Paths : Do(<<"open", p>>) /\ LET o == WOpen(fs, w, p) IN fs' = o.fs /\ w' = o.w /\ UNCHANGED <<r, seen>>
Close == w.live /\ \E d \in {"close", "wdrop"} : Do(<<d>>) /\ LET c == WClose(fs, w) IN fs' = c.fs /\ w' = (IF d = "close" THEN c.w ELSE NoWriter) /\ UNCHANGED <<r, seen>>
\* what a writer has not closed yet is not looked at
Read == \E p \in Sources : (p = "" \/ p # w.file) /\ \E k \in (IF p \in {"a", "odd"} THEN DOMAIN Sizes ELSE 1..1) :
  /\ Do(<<IF r.live THEN "read" ELSE "rnew", p, Sizes[k][1], Sizes[k][2]>>) /\ r' = RRead(fs, [r EXCEPT !.live = TRUE], p, Sizes[k][1], Sizes[k][2]) /\ seen' = <<>> /\ UNCHANGED <<fs, w>>
Get == r.live /\ r.sure /\ Do(<<"get">>) /\ r' = RGet(r) /\ seen' = (IF RMore(r) THEN Append(seen, Got(r)) ELSE seen) /\ UNCHANGED <<fs, w>>
Next == WNew \/ Put \/ Open \/ Close \/ Read \/ Get
Spec == Init /\ [][Next]_vars
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
\* what was handed out is the beginning of what was read, and all of it when there is no more
Faithful == /\ SubSeq(r.buf, 1, Len(Flat(seen))) = Flat(seen) /\ (r.sure /\ ~RMore(r) => Flat(seen) = r.buf)
Whole == (\A x \in Names \ {"odd"} : fs[x] = NoFile \/ (Len(fs[x]) % 4) = 0) /\ fs["odd"] = <<1, 2, 3, 4, 5, 6>> /\ fs["none"] = NoFile
\* a file that is open is empty; a dead writer holds nothing; words are only lost by closing without a file
Held == /\ (w.file # "" => fs[w.file] = <<>>) /\ (~w.live => w = NoWriter)
Puts == {k \in DOMAIN hist : hist[k][1] = "put"}
Out == (Emit /\ Len(hist) = Steps) => PrintT("S " \o ToJson(hist))
================================================================================
