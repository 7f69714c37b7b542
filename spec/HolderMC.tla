------------------------------ MODULE HolderMC ------------------------------
(* Every history of at most Depth operations on the holders of one value     *)
(* that ends with decoding into one of them; each is repeated with the code. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth
VARIABLES ptr, cell, weak, hist, actor
Holder == 1..3
H == INSTANCE Holders
vars == <<ptr, cell, weak, hist, actor>>
Init == /\ ptr = [a \in Holder |-> IF a = 1 THEN 1 ELSE 0] /\ cell = <<0>> /\ weak = {}
        /\ hist = <<>> /\ actor = 0
Op(o, a) == Len(hist) < Depth /\ hist' = Append(hist, o) /\ actor' = a
\* "good" encodings replace the value (by a fresh one), "bad" ones leave something in a sole cell
Fresh == Len(hist) + 1
Next ==
  \/ \E a, b \in Holder : Op(<<"clone", a, b>>, b) /\ H!Clone(a, b)
  \/ \E a \in Holder : Op(<<"drop", a>>, a) /\ H!Drop(a)
  \/ \E a \in Holder : Op(<<"weak", a>>, a) /\ H!Weaken(a)
  \/ Op(<<"unweak", 0>>, 0) /\ H!Forget
  \/ \E a \in Holder, q \in {"good", "bad"} :
       Op(<<q, a>>, a) /\ (H!Install(a, Fresh) \/ H!Refuse(a) \/ H!Split(a, Fresh))
Idle == UNCHANGED vars
Spec == Init /\ [][Next \/ Idle]_vars
-----------------------------------------------------------------------------
Reported == (hist # <<>> /\ hist[Len(hist)][1] \in {"good", "bad"}) => PrintT("@" \o ToJson(hist))
\* holders of one cell show the same, others' cells are their own
Sharing == \A a, b \in Holder : ptr[a] = ptr[b] => H!Shown(a) = H!Shown(b)
Wellformed == \A a \in Holder : ptr[a] \in 0..Len(cell)
Isolated == [][H!Isolation(actor')]_vars
=============================================================================
