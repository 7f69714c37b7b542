------------------------------- MODULE Channel ------------------------------
(* The abstract view of a byte stream that values are written to and read    *)
(* from: a queue of (value, extent).  Reading the head gives the value that  *)
(* was written and consumes its extent; skipping consumes it unseen.         *)
EXTENDS Integers, Sequences
VARIABLES queue, pos    \* values under way; bytes consumed so far
CEmpty == queue = <<>> /\ pos = 0
Send(v, n) == queue' = Append(queue, [v |-> v, n |-> n]) /\ pos' = pos
Receive(v) == /\ queue # <<>> /\ Head(queue).v = v
              /\ pos' = pos + Head(queue).n /\ queue' = Tail(queue)
Skip == queue # <<>> /\ pos' = pos + Head(queue).n /\ queue' = Tail(queue)
=============================================================================
