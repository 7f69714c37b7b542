----------------------------- MODULE SchemaNodes ----------------------------
(* What the schema tool knows of every element of the tree: the levels, the  *)
(* column number, the place, and which element a path of names leads to.     *)
(* Walks along with SchemaTree.                                              *)
(*   nodes  the elements entered so far, in order: name, rep, def, rl        *)
(*          (definition and repetition level), leaf (number among the        *)
(*          leaves, -1 for groups), up (the enclosing element, 0 for none),  *)
(*          n (children), id                                                 *)
(*   open   the open groups, innermost first                                 *)
EXTENDS SchemaTree
VARIABLES nodes, open
NInit == SInit /\ nodes = <<>> /\ open = <<>>
Up == IF open = <<>> THEN 0 ELSE Head(open)
Leaves == Cardinality({i \in 1..Len(nodes) : nodes[i].leaf >= 0})
Node == NodeAt(Elem, IF open = <<>> THEN Nothing ELSE nodes[Head(open)], Up, Leaves)
NodesStep ==
  \/ Enter /\ nodes' = Append(nodes, Node)
     /\ open' = IF Children(Elem) = 0 THEN open ELSE <<Len(nodes) + 1>> \o open
  \/ Leave /\ open' = Tail(open) /\ UNCHANGED nodes
  \/ (Missing \/ Invalid \/ Trailing \/ Whole) /\ UNCHANGED <<nodes, open>>

-----------------------------------------------------------------------------
\* following a path: at every step the first child of that name; 0 for nothing
Named(i, name) == {j \in i+1..Len(nodes) : nodes[j].up = i /\ nodes[j].name = name}
First(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Find(_, _)
Find(i, path) == IF path = <<>> THEN i
                 ELSE IF Named(i, Head(path)) = {} THEN 0
                 ELSE Find(First(Named(i, Head(path))), Tail(path))
RECURSIVE PathTo(_)
PathTo(i) == IF nodes[i].up = 0 THEN <<>> ELSE PathTo(nodes[i].up) \o <<nodes[i].name>>
RECURSIVE Around(_)
Around(i) == {i} \cup (IF nodes[i].up = 0 THEN {} ELSE Around(nodes[i].up))
=============================================================================
