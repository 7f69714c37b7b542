---------------------------- MODULE PageIndexMC -----------------------------
(* Every placement of the extents of a few column chunks on a short chunk of *)
(* the file: each declared number ranges over a set of its own.  Every       *)
(* terminal state is printed and repeated with the code.                     *)
EXTENDS PageIndex
Jobs == ndJsonDeserialize(IOEnv.CT_JOBS)   \* [chunk, off, groups: sizes, sets: per column [oo, ol, co, cl: sets as sequences]]
VARIABLES j, told
vars == <<pvars, j, told>>
Set(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Split(_, _)
Split(cols, sizes) == IF sizes = <<>> THEN <<>>
                      ELSE <<SubSeq(cols, 1, Head(sizes))>> \o Split(SubSeq(cols, Head(sizes) + 1, Len(cols)), Tail(sizes))
\* all sequences whose i-th element comes from the i-th set of declarations
RECURSIVE Choices(_)
Choices(q) == IF q = <<>> THEN {<<>>}
              ELSE {<<h>> \o t : h \in [oo : Set(Head(q).oo), ol : Set(Head(q).ol), co : Set(Head(q).co), cl : Set(Head(q).cl)], t \in Choices(Tail(q))}
Init == /\ j \in 1..Len(Jobs) /\ told = FALSE
        /\ \E cols \in Choices(Jobs[j].sets) : PInit([chunk |-> Jobs[j].chunk, off |-> Jobs[j].off, rgs |-> Split(cols, Jobs[j].groups)])
Tell == /\ Final /\ ~told /\ told' = TRUE
        /\ PrintT("@" \o ToJson([j |-> j, rgs |-> Rgs, st |-> st, v |-> acc]))
        /\ UNCHANGED <<pvars, j>>
Next == (PNext /\ UNCHANGED <<j, told>>) \/ Tell \/ (told /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
