--------------------------- MODULE Trace_Literals ----------------------------
EXTENDS Literals, TraceBase
VARIABLE l
e == Trace[l]
\* literals appended (by whatever function) to operands that were there before
Appended ==
  /\ e.ev = "app"
  /\ Check(e.err = 0, <<"an error was reported", e.last>>)
  /\ Check(Len(e.words) = e.skip + Len(AllWords(e.items)) /\ SubSeq(e.words, e.skip + 1, Len(e.words)) = AllWords(e.items), <<e.how, "appended", e.words, "for", e.items>>)
\* strings found in operands: words with what get/skip/compare answered at each position
Found ==
  /\ e.ev = "str"
  /\ \A k \in DOMAIN e.reads :
      LET r == e.reads[k]  rest == SubSeq(e.words, r.at, Len(e.words)) IN
      /\ Check(r.got = StrOf(rest), <<"extracted", r.got, "instead of", StrOf(rest)>>)
      /\ Check(End(rest) = 0 \/ r.next = r.at + Taken(rest), <<"extraction stopped at", r.next, "of", rest>>)
      /\ Check(End(rest) = 0 \/ r.skip = r.at + Taken(rest), <<"skipping stopped at", r.skip, "of", rest>>)
      /\ \A j \in DOMAIN r.cmp : LET c == r.cmp[j] IN End(rest) = 0 \/ Check(c.r \in Match(c.c, c.n, StrOf(rest)), <<"comparison of", c.c, c.n, "with", StrOf(rest), "yields", c.r>>)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Appended \/ Found)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
