---------------------------- MODULE SchemaTrace -----------------------------
(* Checks recorded runs of the schema tool: [elems, head, obs] with          *)
(* obs = [r |-> "ok", out] or [r |-> "err", e |-> "schema" | other].         *)
EXTENDS SchemaTree, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CT_CASES)
VARIABLE c
Init == c \in 1..Len(Cases) /\ elems = Cases[c].elems /\ SInit
Obs == Cases[c].obs
Final == s.st # "run"
\* of several permitted annotations the one that was shown is taken
SoFar(t) == LET x == Cases[c].head \o t IN Obs.r = "ok" => Len(Obs.out) >= Len(x) /\ SubSeq(Obs.out, 1, Len(x)) = x
Next == \/ ~Final /\ SchemaStep /\ SoFar(s'.out) /\ UNCHANGED <<c, elems>>
        \/ Final /\ UNCHANGED <<c, elems, s>>
Spec == Init /\ [][Next]_<<c, elems, s>>
\* no deadlock: the output is one of the tree; and at the end it is all of it
Conforms ==
  Final => CASE s.st = "err" -> Obs.r = "err" /\ Obs.e = "schema"
             [] s.st = "ok" -> Obs.r = "ok" /\ Obs.out = Cases[c].head \o s.out
=============================================================================
