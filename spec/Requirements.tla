----------------------------- MODULE Requirements ------------------------------
(* What the instructions of a module require (after the Khronos registry) and   *)
(* what a module declares: a set of capabilities, of extensions and of imported *)
(* instruction sets, and a version.                                             *)
EXTENDS Grammar, FiniteSets, SequencesExt
SetOf(s) == {s[k] : k \in DOMAIN s}
KindOf(name) == CHOOSE k \in DOMAIN G.kinds : G.kinds[k].n = name
CapVals == G.kinds[KindOf("Capability")].vals
CapAt(c) == SelectSeq(CapVals, LAMBDA x : x.v[1] = 0 /\ x.v[2] = c)
\* capabilities a capability declares implicitly
Implied(c) == LET v == CapAt(c) IN IF v = <<>> THEN {} ELSE SetOf(v[1].caps)
\* older registries also name Shader for these
Allowed(c) == Implied(c) \cup (IF c \in {5055, 6033, 6034} THEN {1} ELSE {})
RECURSIVE Below(_)
Below(S) == LET T == S \cup UNION {Implied(c) : c \in S} IN IF T = S THEN S ELSE Below(T)
RECURSIVE Above(_)
Above(S) == LET T == S \cup UNION {Allowed(c) : c \in S} IN IF T = S THEN S ELSE Above(T)
Least(c) == Below({c})
Most(c) == Above({c})

CapsOf(op) == IF Known(op) THEN SetOf(Op(op).caps) ELSE {}
ExtsOf(op) == IF Known(op) THEN SetOf(Op(op).exts) ELSE {}
VerOf(op) == IF Known(op) THEN Op(op).ver ELSE 0
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

\* one of the alternatives of every opcode is declared, directly or by implication
Covered(caps, ops) == LET C == Below(caps) IN \A o \in ops : CapsOf(o) = {} \/ CapsOf(o) \cap C # {}
CapsWithin(old, new, ops) == old \subseteq new /\ new \subseteq Above(old \cup UNION {CapsOf(o) : o \in ops})
\* an instruction that is not part of the version needs one of its extensions
ExtsCovered(exts, ver, ops) == \A o \in ops : ExtsOf(o) = {} \/ ExtsOf(o) \cap exts # {} \/ (VerOf(o) # 0 /\ VerOf(o) <= ver)
ExtsWithin(old, new, ops) == old \subseteq new /\ new \subseteq old \cup UNION {ExtsOf(o) : o \in ops}
Needed(exts, ops) == MaxOf({65536} \cup {VerOf(o) : o \in {x \in ops : ExtsOf(x) \cap exts = {}}})
AtMost(ops) == MaxOf({65536} \cup {VerOf(o) : o \in ops})
VerOk(old, new, exts, ops) == new >= old /\ new >= Needed(exts, ops) /\ new <= MaxOf({old, AtMost(ops)})
================================================================================
