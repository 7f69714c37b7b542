-------------------------------- MODULE Agree -------------------------------
(* Executions that have to be indistinguishable: the same work done from     *)
(* different sources, through different pointer types, alone and as part of  *)
(* a session.  A case holds one column of observations per execution; they   *)
(* are walked in lockstep.                                                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CT_CASES)
VARIABLES c, k
Cols == Cases[c].cols
Init == c \in 1..Len(Cases) /\ k = 1
Ended(i) == k > Len(Cols[i])
Same(a, b) == /\ a.r = b.r
              /\ IF a.r = "ok" THEN a.p = b.p /\ a.v = b.v ELSE a.e = b.e
Next == \/ ~Ended(1) /\ k' = k + 1 /\ c' = c
        \/ Ended(1) /\ UNCHANGED <<c, k>>
Spec == Init /\ [][Next]_<<c, k>>
Agreement == \A i \in 2..Len(Cols) : /\ Ended(i) = Ended(1)
                                     /\ ~Ended(1) => Same(Cols[1][k], Cols[i][k])
=============================================================================
