----------------------------- MODULE SchemaScan -----------------------------
(* The same machine for long lists: what was observed is compared element by *)
(* element and line by line instead of being kept in the state.              *)
(* Cases: [elems, nodes, lines], nodes or lines may be empty (not observed). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CT_CASES)
VARIABLES c, s, open, leaves, k
vars == <<c, s, open, leaves, k>>
T == INSTANCE SchemaTree WITH elems <- Cases[c].elems
Nodes == Cases[c].nodes
Lines == Cases[c].lines
Init == c \in 1..Len(Cases) /\ T!SInit /\ open = <<>> /\ leaves = 0 /\ k = 0
Outer == IF open = <<>> THEN T!Nothing ELSE Head(open)
Node == T!NodeAt(T!Elem, Outer, IF open = <<>> THEN 0 ELSE Outer.at, leaves)
Same(n, o) == o.opt = (n.rep = 1) /\ \A f \in DOMAIN n : o[f] = n[f]
Enter == /\ s.out = "" /\ T!Enter
         /\ Nodes # <<>> => s.i < Len(Nodes) /\ Same(Node, Nodes[s.i + 1])
         /\ leaves' = leaves + (IF Node.leaf >= 0 THEN 1 ELSE 0)
         /\ open' = IF Node.leaf >= 0 THEN open ELSE <<[at |-> s.i + 1, def |-> Node.def, rl |-> Node.rl]>> \o open
         /\ UNCHANGED <<c, k>>
Leave == s.out = "" /\ T!Leave /\ open' = Tail(open) /\ UNCHANGED <<c, leaves, k>>
Show ==  /\ s.out # ""
         /\ Lines # <<>> => k < Len(Lines) /\ s.out = Lines[k + 1]
         /\ s' = [s EXCEPT !.out = ""] /\ k' = k + 1 /\ UNCHANGED <<c, open, leaves>>
Whole == /\ s.out = "" /\ T!Whole /\ UNCHANGED <<c, open, leaves, k>>
         /\ Nodes # <<>> => Len(Nodes) = s.i
         /\ Lines # <<>> => Len(Lines) = k
Next == Enter \/ Leave \/ Show \/ Whole \/ (s.st = "ok" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
