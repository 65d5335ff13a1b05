-------------------------------- MODULE MC_Walks -------------------------------
(* The walk as a machine that takes one instruction after the other out of the     *)
(* containers of a small module.                                                 *)
EXTENDS Walks
CONSTANTS Types, Funs
VARIABLES m, todo, seen, at, op, out
vars == <<m, todo, seen, at, op, out>>
I(n, o, a) == <<n, o, a>>
\* shapes of functions: a declaration, a body, one with two blocks, unfinished ones, an entry point
Block(l, end) == [lab |-> I(l, 248, <<<<"d", 0>>>>), ins |-> <<I(l + 1, 0, <<>>)>> \o (IF end THEN <<I(l + 2, 253, <<>>)>> ELSE <<>>)]
Empty(l) == [lab |-> I(l, 248, <<<<"d", 0>>>>), ins |-> <<>>]
Fun(n, bbs, ep) == [fn |-> I(n, 54, <<>>), ps |-> <<I(n + 1, 55, <<>>)>>, bbs |-> bbs, end |-> I(n + 9, 56, <<>>), ep |-> ep]
Shapes(n) == { Fun(n, <<>>, <<>>), Fun(n, <<Block(n + 2, TRUE)>>, <<>>), Fun(n, <<Block(n + 2, TRUE), Block(n + 5, TRUE)>>, <<>>), Fun(n, <<Block(n + 2, FALSE), Block(n + 5, TRUE)>>, <<>>), Fun(n, <<Block(n + 2, TRUE), Empty(n + 5)>>, <<>>), Fun(n, <<Block(n + 2, TRUE)>>, <<n>>) }
Mod(t, fs) == [ver |-> <<1, 0>>, gen |-> <<0, 0>>, bound |-> <<0, 0>>, schema |-> <<0, 0>>, caps |-> <<I(1, 17, <<>>)>>, exts |-> <<>>, imps |-> <<>>, mm |-> I(2, 14, <<>>), eps |-> [k \in DOMAIN SelectSeq(fs, LAMBDA f : f.ep # <<>>) |-> I(2 + k, 15, <<>>)],
  modes |-> <<>>, srcs |-> <<>>, names |-> <<>>, procs |-> <<>>, decs |-> <<>>, tcs |-> [k \in 1..t |-> I(5 + k, 19, <<<<"d", 0>>>>)], vars |-> <<>>, undefs |-> <<>>, lines |-> <<I(9, 8, <<>>)>>, funs |-> fs]
RECURSIVE Seqs(_)
Seqs(k) == IF k = 0 THEN {<<>>} ELSE {s \o <<f>> : s \in Seqs(k - 1), f \in Shapes(10 * k)}
\* work to do: sections, then functions, then what they are made of
Sections(x) == <<x.caps, x.exts, x.imps, <<x.mm>>, x.eps, x.modes, x.srcs, x.names, x.procs, x.decs, x.tcs, x.vars, x.undefs, x.lines>>
L(is) == [t |-> "list", is |-> is]
Check1(b) == [t |-> "end", is |-> IF Ended(b) THEN <<>> ELSE <<1>>]
Work(f) == <<L(<<f.fn>>), L(f.ps)>> \o Flat([k \in DOMAIN f.bbs |-> <<L(<<f.bbs[k].lab>>), L(f.bbs[k].ins), Check1(f.bbs[k])>>]) \o <<L(<<f.end>>)>>
Decl(f) == f.bbs = <<>>
WorkAll(x) == [k \in DOMAIN Sections(x) |-> L(Sections(x)[k])]
  \o Flat([k \in DOMAIN x.funs |-> IF x.funs[k].ep = <<>> /\ Decl(x.funs[k]) THEN Work(x.funs[k]) ELSE <<>>])
  \o Flat([k \in DOMAIN x.funs |-> IF x.funs[k].ep = <<>> /\ ~Decl(x.funs[k]) THEN Work(x.funs[k]) ELSE <<>>])
  \o Flat([k \in DOMAIN x.funs |-> IF x.funs[k].ep # <<>> /\ ~Decl(x.funs[k]) THEN Work(x.funs[k]) ELSE <<>>])
\* entry points stand behind the functions
Sorted(fs) == SelectSeq(fs, LAMBDA f : f.ep = <<>>) \o SelectSeq(fs, LAMBDA f : f.ep # <<>>)
Init == \E t \in 0..Types, k \in 0..Funs : \E fs \in Seqs(k) : \E a \in {-1, 1, 2, 4, 7, 9} : \E o \in {-1, 19, 56, 253} :
  m = Mod(t, Sorted(fs)) /\ todo = WorkAll(m) /\ seen = <<>> /\ at = a /\ op = o /\ out = <<>>
Running == todo # <<>> /\ out = <<>>
Head1 == todo[1]
Skip == Running /\ Head1.is = <<>> /\ todo' = Tail(todo) /\ UNCHANGED <<m, seen, at, op, out>>
Visit == Running /\ Head1.t = "list" /\ Head1.is # <<>> /\
  (LET i == Head1.is[1] IN
   /\ seen' = Append(seen, i[1])
   /\ todo' = <<[Head1 EXCEPT !.is = Tail(@)]>> \o Tail(todo)
   /\ out' = IF Len(seen) + 1 = at \/ i[2] = op THEN <<"stopped">> ELSE <<>>)
  /\ UNCHANGED <<m, at, op>>
NoEnd == Running /\ Head1.t = "end" /\ Head1.is # <<>> /\ out' = <<"error">> /\ UNCHANGED <<m, todo, seen, at, op>>
Done == todo = <<>> /\ out = <<>> /\ out' = <<"done">> /\ UNCHANGED <<m, todo, seen, at, op>>
Next == Skip \/ Visit \/ NoEnd \/ Done
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------------
W == Walk(m, at, op)
Prefix == Len(seen) <= Len(W.seen) /\ seen = SubSeq(W.seen, 1, Len(seen))
Right == out # <<>> => seen = W.seen /\ W.ret = (out # <<"done">>) /\ W.err = (IF out = <<"error">> THEN 1 ELSE 0)
\* nothing twice; an undisturbed walk over a finished module sees everything
Once == Cardinality({seen[k] : k \in DOMAIN seen}) = Len(seen)
Whole == out = <<"done">> => {seen[k] : k \in DOMAIN seen} = {All(m)[k][1] : k \in DOMAIN All(m)}
================================================================================
