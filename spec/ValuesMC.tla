------------------------------- MODULE ValuesMC -----------------------------
(* Pairs of values of the domain: the laws of comparison and of defaults.    *)
(* Every pair is printed as a test.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT SetCode
Table == JsonDeserialize(IOEnv.CT_TYPES)
Jobs == ndJsonDeserialize(IOEnv.CT_JOBS)   \* [t |-> type, rich]
VARIABLES b, j, x, y, ph
D == INSTANCE Domain WITH Structs <- Table
V == INSTANCE Values WITH Structs <- Table
vars == <<b, j, x, y, ph>>
T == Jobs[j].t
Struct == T.k = "ref" /\ Table[T.n].kind = "struct"
Init == /\ j \in 1..Len(Jobs)
        /\ x \in D!Vals(Jobs[j].t, Jobs[j].rich) \cup {V!Default(Jobs[j].t)}
        /\ y \in D!Vals(Jobs[j].t, 1) \cup {V!Default(Jobs[j].t), x}
        /\ b = V!BStart(IF Struct THEN x ELSE <<>>) /\ ph = "new"
Take == ph = "new" /\ V!BTake /\ UNCHANGED <<j, x, y, ph>>
Report == /\ ph = "new" /\ b.left = <<>> /\ ph' = "done" /\ UNCHANGED <<b, j, x, y>>
          /\ PrintT("@" \o ToJson([j |-> j, x |-> x, y |-> y, eq |-> V!Equal(T, x, y)]))
Next == Take \/ Report \/ (ph = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Constructed == ph = "done" /\ Struct => b.v = x
Laws == /\ V!Equal(T, x, y) = V!Equal(T, y, x)
        /\ V!Equal(T, x, x) = ~V!HasNaN(T, x)
        /\ (x = y /\ ~V!HasNaN(T, x)) => V!Equal(T, x, y)
        /\ V!Equal(T, V!Default(T), V!Default(T))
=============================================================================
