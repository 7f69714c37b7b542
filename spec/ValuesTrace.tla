----------------------------- MODULE ValuesTrace ----------------------------
(* Checks recorded constructions, defaults and comparisons:                  *)
(* [op |-> "new", t, args, v], [op |-> "default", t, v],                     *)
(* [op |-> "equal", t, x, y, eq, ne, copy, same, own]                             *)
(* [op |-> "number", t, x, y, of, into, cmp, part, eq, hash]                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT SetCode
Table == JsonDeserialize(IOEnv.CT_TYPES)
Cases == ndJsonDeserialize(IOEnv.CT_CASES)
VARIABLES b, c
V == INSTANCE Values WITH Structs <- Table
C == Cases[c]
Init == c \in 1..Len(Cases) /\ b = V!BStart(IF C.op = "new" THEN C.args ELSE <<>>)
Next == (V!BTake /\ c' = c) \/ (b.left = <<>> /\ UNCHANGED <<b, c>>)
Spec == Init /\ [][Next]_<<b, c>>
Conforms ==
  b.left = <<>> =>
    CASE C.op = "new" -> ToString(C.v) = ToString(b.v)
      [] C.op = "default" -> ToString(C.v) = ToString(V!Default(C.t))
      [] C.op = "equal" -> /\ C.eq = V!Equal(C.t, C.x, C.y) /\ C.ne = ~C.eq
                           \* a copy is the same value, and stays so when the original goes
                           /\ ToString(C.copy) = ToString(C.x) /\ C.same = ~V!HasNaN(C.t, C.x)
                           /\ C.own = C.same    \* being the same object makes no difference
      [] C.op = "number" -> /\ C.of = C.x /\ C.into = C.y
                            /\ C.cmp = V!Order(C.x, C.y) /\ C.part = C.cmp /\ C.eq = (C.x = C.y)
                            /\ C.eq => C.hash
=============================================================================
