------------------------------ MODULE Constants -----------------------------
(* The numbers of the declared enum constants: want is the definition's,     *)
(* have the code's.                                                          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CT_CASES)
VARIABLE c
Spec == c \in 1..Len(Cases) /\ [][UNCHANGED c]_c
Kept == Cases[c].have = Cases[c].want
=============================================================================
