------------------------------ MODULE Holders -------------------------------
(* Values behind reference-counted pointers.  A holder points to a cell or   *)
(* to nothing; several holders, and weak references, may point to one cell.  *)
(* Decoding into a holder may only ever change what this holder shows.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Holder
VARIABLES ptr,    \* holder -> number of its cell, 0 if none
          cell,   \* number of a cell -> its value
          weak    \* cells with weak references

Live(a) == ptr[a] # 0
Sole(a) == ptr[a] \notin weak /\ \A b \in Holder : ptr[b] = ptr[a] => b = a
Shown(a) == IF Live(a) THEN <<cell[ptr[a]]>> ELSE <<>>

Clone(a, b) == Live(a) /\ a # b /\ ptr' = [ptr EXCEPT ![b] = ptr[a]] /\ UNCHANGED <<cell, weak>>
Drop(a) == Live(a) /\ ptr' = [ptr EXCEPT ![a] = 0] /\ UNCHANGED <<cell, weak>>
Weaken(a) == Live(a) /\ weak' = weak \cup {ptr[a]} /\ UNCHANGED <<ptr, cell>>
Forget == weak # {} /\ weak' = {} /\ UNCHANGED <<ptr, cell>>
\* the outcomes of decoding into holder a
Install(a, v) == Live(a) /\ Sole(a) /\ cell' = [cell EXCEPT ![ptr[a]] = v] /\ UNCHANGED <<ptr, weak>>
Refuse(a) == Live(a) /\ ~Sole(a) /\ UNCHANGED <<ptr, cell, weak>>
Split(a, v) == /\ Live(a) /\ ~Sole(a)     \* a copy of its own
               /\ cell' = Append(cell, v) /\ ptr' = [ptr EXCEPT ![a] = Len(cell) + 1] /\ UNCHANGED weak

\* whoever did not ask for a change sees none (op: the holder that acts)
Isolation(a) == \A b \in Holder \ {a} : ptr'[b] = ptr[b] => (ptr[b] # 0 => cell'[ptr[b]] = cell[ptr[b]])
=============================================================================
