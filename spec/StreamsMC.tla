----------------------------- MODULE StreamsMC ------------------------------
(* Every interleaving of the sessions of N streams, up to L operations each, *)
(* each ending in success or failure; each interleaving is printed and       *)
(* repeated with real sessions.                                              *)
EXTENDS Streams, TLC, Json
CONSTANTS N, L
VARIABLE order
vars == <<alone, done, order>>
Sessions == UNION {[1..n -> {"ok"}] \cup {[i \in 1..n |-> IF i = n THEN "err" ELSE "ok"]} : n \in 1..L}
Init == /\ \E f \in [1..N -> Sessions] : Begin(f)
        /\ order = <<>>
Step == \E s \in 1..N : Operate(s) /\ order' = Append(order, s)
Over == /\ Finished /\ UNCHANGED vars
Finish == /\ Finished /\ PrintT("@" \o ToJson([order |-> order, kinds |-> [s \in 1..N |-> <<Len(alone[s]), alone[s][Len(alone[s])]>>]])) /\ UNCHANGED vars
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
AllEnd == <>Finished
=============================================================================
