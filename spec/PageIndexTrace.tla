--------------------------- MODULE PageIndexTrace ---------------------------
(* Recorded readings of page indexes against PageIndex.                      *)
(* A case is a task of PageIndex and the observed result `res`.              *)
EXTENDS PageIndex
Cases == ndJsonDeserialize(IOEnv.CT_CASES)
VARIABLE c
vars == <<pvars, c>>
Init == c \in 1..Len(Cases) /\ PInit([chunk |-> Cases[c].chunk, off |-> Cases[c].off, rgs |-> Cases[c].rgs])
Done == Final /\ UNCHANGED vars
Next == (PNext /\ c' = c) \/ Done
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Res == Cases[c].res
NoCrash == Res.r = "ok" \/ Res.e \notin {"Panic", "Crash", "Hang"}
Conforms ==
  Final => CASE st = "ok" -> Res.r = "ok" /\ ToString(Res.v) = ToString(acc)
             [] st = "err" -> Res.r = "err" /\ NoCrash
             [] st = "unspec" -> NoCrash
=============================================================================
