------------------------------ MODULE HeapTrace -----------------------------
(* Checks what decodings, encodings and drops did with memory:               *)
(* [ev |-> <<kind, block, size, new size>>...]; in the end nothing is left.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CT_CASES)
VARIABLES c, i, live
H == INSTANCE Heap
Ev == Cases[c].ev
Init == c \in 1..Len(Cases) /\ i = 0 /\ H!HInit
E == Ev[i + 1]
Step == /\ i < Len(Ev) /\ i' = i + 1 /\ c' = c
        /\ CASE E[1] = "take" -> H!Take(E[2], E[3])
             [] E[1] = "release" -> H!Release(E[2], E[3])
             [] E[1] = "resize" -> H!Resize(E[2], E[3], E[4])
Done == i = Len(Ev) /\ H!Empty /\ UNCHANGED <<c, i, live>>
Next == Step \/ Done
Spec == Init /\ [][Next]_<<c, i, live>>
=============================================================================
