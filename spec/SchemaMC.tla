------------------------------ MODULE SchemaMC ------------------------------
(* All short lists over an alphabet of elements.  The machine accepts a list *)
(* exactly if it is a traversal, said differently: the children counted so   *)
(* far always leave a place open until the end, and exactly none then.       *)
EXTENDS SchemaTree, Json, IOUtils
Alphabet == ndJsonDeserialize(IOEnv.CT_JOBS)
Max == atoi(IOEnv.CT_MAX)
VARIABLES ids, done
vars == <<elems, s, ids, done>>
Init == /\ \E n \in 0..Max : \E f \in [1..n -> 1..Len(Alphabet)] : ids = f
        /\ elems = [i \in 1..Len(ids) |-> Alphabet[ids[i]]] /\ done = FALSE /\ SInit
Step == SchemaStep /\ UNCHANGED <<elems, ids, done>>
Report == /\ s.st # "run" /\ ~done /\ done' = TRUE /\ PrintT("@" \o ToJson([ids |-> ids, st |-> s.st, out |-> s.out])) /\ UNCHANGED <<elems, s, ids>>
Next == Step \/ Report \/ (done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
RECURSIVE Open(_)
Open(n) == IF n = 0 THEN 1 ELSE Open(n - 1) - 1 + Children(elems[n])
Traversal == /\ Len(elems) > 0 /\ Rep(elems[1]) = 0
             /\ \A i \in 1..Len(elems) : Rep(elems[i]) \in 0..2 /\ Children(elems[i]) >= 0
                                         /\ (Children(elems[i]) = 0 => LeafValid(elems[i]))
             /\ \A n \in 0..Len(elems)-1 : Open(n) > 0
             /\ Open(Len(elems)) = 0
Accepts == /\ s.st = "ok" => Traversal
           /\ s.st = "err" => ~Traversal
\* every accepted list is consumed in order, one element at a time
InOrder == [][s'.i \in {s.i, s.i + 1}]_vars
=============================================================================
