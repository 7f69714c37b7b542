-------------------------- MODULE SchemaNodesTrace --------------------------
(* Checks recorded conversions: [elems, paths, obs] with obs =               *)
(* [r |-> "ok", nodes, found] (found: per path the element, 0 for none)      *)
(* or [r |-> "err", e].                                                      *)
EXTENDS SchemaNodes, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CT_CASES)
VARIABLE c
Init == c \in 1..Len(Cases) /\ elems = Cases[c].elems /\ NInit
Obs == Cases[c].obs
Final == s.st # "run"
Next == \/ ~Final /\ NodesStep /\ UNCHANGED <<c, elems>>
        \/ Final /\ UNCHANGED <<c, elems, s, nodes, open>>
Spec == Init /\ [][Next]_<<c, elems, s, nodes, open>>
\* what an element is annotated with, as text and through the accessors
Noted(e, o) ==
  "note" \in DOMAIN o =>
    /\ o.note \in Annotation(e, Children(e) > 0)
    /\ IF o.dec THEN Len(o.prec) = 1 /\ Len(o.scale) = 1 /\ o.note = DecimalText(o.prec[1], o.scale[1])
       ELSE o.prec = <<>> /\ o.scale = <<>>
    /\ o.unit # <<>> => o.note \in {k \o TimeOptions(u, o.unit[1]) : k \in {"Time", "Timestamp"}, u \in BOOLEAN}
Conforms ==
  Final => CASE s.st = "err" -> Obs.r = "err" /\ Obs.e = "schema"
             [] s.st = "ok" -> /\ Obs.r = "ok" /\ Len(Obs.nodes) = Len(nodes)
                               /\ \A i \in 1..Len(nodes) : \A f \in DOMAIN nodes[i] : Obs.nodes[i][f] = nodes[i][f]
                               /\ \A i \in 1..Len(nodes) : Obs.nodes[i].opt = (nodes[i].rep = 1)
                               /\ \A i \in 1..Len(nodes) : Noted(elems[i], Obs.nodes[i])
                               /\ Len(Obs.found) = Len(Cases[c].paths)
                               /\ \A k \in 1..Len(Obs.found) : Obs.found[k] = Find(1, Cases[c].paths[k])
=============================================================================
