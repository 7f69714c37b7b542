---------------------------- MODULE StreamsTrace ----------------------------
(* Recorded interleaved operations on several streams against Streams: an    *)
(* event [s, r] is the next result of stream s.                              *)
EXTENDS Streams, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CT_CASES)
VARIABLES c, k
Init == c \in 1..Len(Cases) /\ k = 1 /\ Begin(Cases[c].alone)
Ev == Cases[c].ev[k]
Next == \/ /\ k <= Len(Cases[c].ev) /\ Operate(Ev.s)
           /\ done'[Ev.s][Len(done'[Ev.s])] = Ev.r
           /\ k' = k + 1 /\ c' = c
        \/ k > Len(Cases[c].ev) /\ UNCHANGED <<alone, done, c, k>>
Spec == Init /\ [][Next]_<<alone, done, c, k>>
Accepted == (k <= Len(Cases[c].ev) => ENABLED Next) /\ (k > Len(Cases[c].ev) => Finished)
=============================================================================
