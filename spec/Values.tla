-------------------------------- MODULE Values ------------------------------
(* Values as such: made by a constructor, made by default, compared.         *)
(* The constructor takes one argument per field in the order of declaration: *)
(*   b.left  arguments not yet taken                                         *)
(*   b.v     the value so far                                                *)
EXTENDS Types
VARIABLE b
BStart(args) == [left |-> args, v |-> <<>>]
BTake == b.left # <<>> /\ b' = [left |-> Tail(b.left), v |-> Append(b.v, Head(b.left))]

\* IEEE 754: a NaN equals nothing, the zeros equal each other
NaN(d) == d[8] \in {127, 255} /\ d[7] >= 240 /\ (d[7] > 240 \/ \E i \in 1..6 : d[i] # 0)
ZeroBits(d) == \A i \in 1..7 : d[i] = 0 /\ d[8] \in {0, 128}
RECURSIVE Equal(_, _, _)
Equal(t, x, y) ==
  CASE t.k = "double" -> ~NaN(x) /\ (x = y \/ (ZeroBits(x) /\ ZeroBits(y)))
    [] t.k \in {"list", "set", "opt"} -> Len(x) = Len(y) /\ \A i \in 1..Len(x) : Equal(t.e, x[i], y[i])
    [] t.k = "ref" ->
         IF Kind(t.n) = "union" THEN x[1] = y[1] /\ Equal(Fields(t.n)[x[1]].t, x[2], y[2])
         ELSE \A i \in 1..Len(Fields(t.n)) :
                Len(x[i]) = Len(y[i]) /\ (x[i] # <<>> => Equal(Fields(t.n)[i].t, x[i][1], y[i][1]))
    [] OTHER -> x = y
RECURSIVE HasNaN(_, _)
HasNaN(t, x) ==
  CASE t.k = "double" -> NaN(x)
    [] t.k \in {"list", "set", "opt"} -> \E i \in 1..Len(x) : HasNaN(t.e, x[i])
    [] t.k = "ref" -> IF Kind(t.n) = "union" THEN HasNaN(Fields(t.n)[x[1]].t, x[2])
                      ELSE \E i \in 1..Len(Fields(t.n)) : x[i] # <<>> /\ HasNaN(Fields(t.n)[i].t, x[i][1])
    [] OTHER -> FALSE
\* enums are numbers: limbs of 32 bits in two's complement
Before(x, y) == LET h(l) == IF l[2] >= 32768 THEN l[2] - 65536 ELSE l[2]
                IN h(x) < h(y) \/ (h(x) = h(y) /\ x[1] < y[1])
Order(x, y) == IF Before(x, y) THEN -1 ELSE IF Before(y, x) THEN 1 ELSE 0
=============================================================================
