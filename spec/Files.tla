--------------------------------- MODULE Files ---------------------------------
(* Files of words: a writer collects words and leaves them in its file when it   *)
(* is closed; a reader takes a window of a file's bytes when it reads and hands  *)
(* out its words one by one.  Files are sequences of bytes, words are tuples of  *)
(* four bytes, least significant first.  `Dir` can not be opened as a file, nor  *)
(* anything below `Nowhere`.                                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
NoFile == <<-1>>
Unopenable == {"dir", "nowhere/x", ""}
NoWriter == [live |-> FALSE, file |-> "", buf |-> <<>>]
\* sure: what the last read took (after a read that failed get may not be called)
NoReader == [live |-> FALSE, buf |-> <<>>, pos |-> 0, sure |-> FALSE]
Words(n) == n \div 4
WordAt(b, k) == SubSeq(b, 4 * k + 1, 4 * k + 4)
Window(b, off, len) == SubSeq(b, off + 1, off + (IF len = 0 THEN Len(b) - off ELSE len))
\* ---------------------------------------------------------------------- writer
CanOpen(w, path) == w.file = "" /\ path \notin Unopenable
\* opening empties the file
WOpen(fs, w, path) == IF CanOpen(w, path) THEN [fs |-> [fs EXCEPT ![path] = <<>>], w |-> [w EXCEPT !.file = path], ret |-> TRUE] ELSE [fs |-> fs, w |-> w, ret |-> FALSE]
WPut(w, word) == [w EXCEPT !.buf = @ \o word]
WClose(fs, w) == [fs |-> IF w.file = "" THEN fs ELSE [fs EXCEPT ![w.file] = w.buf], w |-> [w EXCEPT !.file = "", !.buf = <<>>]]
\* ---------------------------------------------------------------------- reader
CanRead(fs, path, off, len) == /\ path \in DOMAIN fs /\ fs[path] # NoFile
  /\ off <= Len(fs[path]) /\ len <= Len(fs[path]) - off
  /\ (Len(Window(fs[path], off, len)) % 4) = 0
RRead(fs, r, path, off, len) ==
  IF CanRead(fs, path, off, len) THEN [r EXCEPT !.buf = Window(fs[path], off, len), !.pos = 0, !.sure = TRUE] ELSE [r EXCEPT !.buf = <<>>, !.pos = 0, !.sure = FALSE]
RMore(r) == r.pos < Words(Len(r.buf))
RGet(r) == IF RMore(r) THEN [r EXCEPT !.pos = @ + 1] ELSE r
Got(r) == WordAt(r.buf, r.pos)
================================================================================
