---------------------------- MODULE ChannelTrace ----------------------------
(* Checks recorded histories of writes followed by reads and skips on one    *)
(* stream against Channel.  An event is                                      *)
(*   [op |-> "w", v, n] | [op |-> "r", ok, v, p] | [op |-> "s", ok, p]       *)
(* with values given as text (their canonical form).                         *)
EXTENDS Channel, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CT_CASES)
VARIABLES c, k
Init == c \in 1..Len(Cases) /\ k = 1 /\ CEmpty
Ev == Cases[c].ev[k]
Next == \/ /\ k <= Len(Cases[c].ev)
           /\ k' = k + 1 /\ c' = c
           /\ CASE Ev.op = "w" -> Send(Ev.v, Ev.n)
                [] Ev.op = "r" -> Ev.ok /\ Receive(Ev.v) /\ pos' = Ev.p
                [] Ev.op = "s" -> Ev.ok /\ Skip /\ pos' = Ev.p
        \/ k > Len(Cases[c].ev) /\ UNCHANGED <<c, k, queue, pos>>
Spec == Init /\ [][Next]_<<c, k, queue, pos>>
\* the history can be continued to its end, and everything sent was received
Accepted == (k <= Len(Cases[c].ev) => ENABLED Next) /\ (k > Len(Cases[c].ev) => queue = <<>>)
=============================================================================
