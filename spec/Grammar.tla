------------------------------- MODULE Grammar -------------------------------
(* The SPIR-V grammar the specifications go by: the Khronos registry           *)
(* (data/grammar.json), independent of the tables compiled into the library.   *)
EXTENDS Naturals, Integers, Sequences, Json, IOUtils
G == JsonDeserialize(IOEnv.GRAMMAR)
Known(op) == op + 1 \in DOMAIN G.idx /\ G.idx[op + 1] # 0
Op(op) == G.ops[G.idx[op + 1]]
HasResult(op) == Known(op) /\ Op(op).res
HasType(op) == Known(op) /\ Op(op).type
\* position of the result id among the operands (0: none)
ResAt(op) == IF ~HasResult(op) THEN 0 ELSE IF HasType(op) THEN 2 ELSE 1
\* everything that is not the type and the result
FirstArg(op) == 1 + (IF HasResult(op) THEN 1 ELSE 0) + (IF HasType(op) THEN 1 ELSE 0)
=============================================================================
