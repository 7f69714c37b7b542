------------------------------ MODULE Streams -------------------------------
(* Several streams under way at the same time.  Each has a session of its    *)
(* own, a sequence of results that its operations give when nothing else is  *)
(* going on (it ends with the first failure).  An operation takes one stream *)
(* one step further along its own session and touches no other.              *)
EXTENDS Integers, Sequences
VARIABLES alone, done   \* stream -> results to come; stream -> results so far
Begin(sessions) == alone = sessions /\ done = [s \in DOMAIN sessions |-> <<>>]
Operate(s) == /\ Len(done[s]) < Len(alone[s])
              /\ done' = [done EXCEPT ![s] = Append(@, alone[s][Len(@) + 1])]
              /\ alone' = alone
Finished == \A s \in DOMAIN alone : done[s] = alone[s]
\* whatever happens elsewhere, a stream has a prefix of its own session behind it
Separate == \A s \in DOMAIN alone : done[s] = SubSeq(alone[s], 1, Len(done[s]))
\* no operation concerns two streams
Private == [][\E s \in DOMAIN alone : \A t \in DOMAIN alone \ {s} : done'[t] = done[t]]_<<alone, done>>
=============================================================================
