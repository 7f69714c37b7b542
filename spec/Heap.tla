-------------------------------- MODULE Heap --------------------------------
(* Memory as its users have to treat it: a block is released once, with the  *)
(* size it has, and not touched before it is taken.                          *)
(*   live  blocks taken and not released: [b |-> number, n |-> size]         *)
EXTENDS Integers, FiniteSets
VARIABLE live
HInit == live = {}
Take(b, n) == (\A x \in live : x.b # b) /\ live' = live \cup {[b |-> b, n |-> n]}
Release(b, n) == [b |-> b, n |-> n] \in live /\ live' = live \ {[b |-> b, n |-> n]}
Resize(b, n, m) == [b |-> b, n |-> n] \in live /\ live' = (live \ {[b |-> b, n |-> n]}) \cup {[b |-> b, n |-> m]}
Empty == live = {}
=============================================================================
