---------------------------- MODULE SchemaNodesMC ---------------------------
(* All short lists over an alphabet: the levels and column numbers said      *)
(* without reference to the walk, and paths lead where they should.          *)
EXTENDS SchemaNodes, Json, IOUtils
Alphabet == ndJsonDeserialize(IOEnv.CT_JOBS)
Max == atoi(IOEnv.CT_MAX)
VARIABLES ids, done
vars == <<elems, s, nodes, open, ids, done>>
Init == /\ \E n \in 0..Max : \E f \in [1..n -> 1..Len(Alphabet)] : ids = f
        /\ elems = [i \in 1..Len(ids) |-> Alphabet[ids[i]]] /\ done = FALSE /\ NInit
Step == NodesStep /\ UNCHANGED <<elems, ids, done>>
Names == {Alphabet[i].name : i \in 1..Len(Alphabet)}
Paths == {<<>>} \cup {PathTo(i) : i \in 1..Len(nodes)} \cup {<<n>> : n \in Names}
         \cup {PathTo(i) \o <<n>> : i \in 1..Len(nodes), n \in Names}
Report == /\ s.st = "ok" /\ ~done /\ done' = TRUE /\ UNCHANGED <<elems, s, nodes, open, ids>>
          /\ PrintT("@" \o ToJson([ids |-> ids, nodes |-> nodes, paths |-> {<<p, Find(1, p)>> : p \in Paths}]))
Next == Step \/ Report \/ ((done \/ s.st = "err") /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Levels == \A i \in 1..Len(nodes) :
  /\ nodes[i].def = Cardinality({j \in Around(i) : nodes[j].rep # 0})
  /\ nodes[i].rl = Cardinality({j \in Around(i) : nodes[j].rep = 2})
  /\ nodes[i].rl <= nodes[i].def
Columns ==
  LET L == {i \in 1..Len(nodes) : nodes[i].leaf >= 0} IN
  /\ \A i \in 1..Len(nodes) : nodes[i].leaf >= 0 <=> nodes[i].n = 0
  /\ \A i \in L : nodes[i].leaf = Cardinality({j \in L : j < i})
Places == s.st = "ok" =>
  /\ Len(nodes) = Len(elems)
  /\ \A i \in 1..Len(nodes) : /\ nodes[i].up < i
                              /\ Cardinality({j \in 1..Len(nodes) : nodes[j].up = i}) = nodes[i].n
  /\ \A i \in 2..Len(nodes) : nodes[i].up > 0
\* an element whose name and those around it are unique among their siblings is found
Unique(i) == \A j \in Around(i) : \A k \in 1..Len(nodes) : k # j /\ nodes[k].up = nodes[j].up => nodes[k].name # nodes[j].name
Found == s.st = "ok" =>
  /\ \A i \in 1..Len(nodes) : Unique(i) => Find(1, PathTo(i)) = i
  /\ \A p \in Paths : Find(1, p) # 0 => PathTo(Find(1, p)) = p
=============================================================================
