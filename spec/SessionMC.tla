----------------------------- MODULE SessionMC ------------------------------
(* Several operations on one stream, one after the other: every sequence of  *)
(* N operations of a catalogue, on the concatenation of the encodings they   *)
(* are meant for.  Each starts where the previous one ended, and as long as  *)
(* all of them are operations that succeed alone, each gives the result it   *)
(* gives alone.  Every session is printed and repeated with the code.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS SetCode, N
Table == JsonDeserialize(IOEnv.CT_TYPES)
Jobs == ndJsonDeserialize(IOEnv.CT_JOBS)   \* [job, b, exact: succeeds alone, with value v]
VARIABLES s, k, m, hist, inp
Eof == "IO:UnexpectedEof"
R == INSTANCE Reader WITH Structs <- Table, MaxBinary <- 16777216, MaxCollection <- 10000000, Block <- 64,
                          MinSkipDepth <- 64, eof <- Eof, closed <- TRUE
vars == <<s, k, m, hist, inp>>
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Jobs[Head(q)].b \o Concat(Tail(q))
Init == /\ s \in [1..N -> 1..Len(Jobs)] /\ k = 1 /\ hist = <<>>
        /\ inp = Concat(s) /\ m = R!Start(Jobs[s[1]].job, 0)
Step == m.st = "run" /\ R!ReaderStep /\ UNCHANGED <<s, k, hist, inp>>
Result == [st |-> m.st, p |-> m.pos, v |-> m.v]
NextJob == /\ m.st = "ok" /\ k < N /\ hist' = Append(hist, Result)
           /\ k' = k + 1 /\ m' = R!Start(Jobs[s[k+1]].job, m.pos) /\ UNCHANGED <<s, inp>>
Finish == /\ (m.st \in {"err", "unspec"} \/ (m.st = "ok" /\ k = N))
          /\ hist' = Append(hist, Result) /\ m' = [m EXCEPT !.st = "over"]
          /\ PrintT("@" \o ToJson([s |-> s, h |-> hist']))
          /\ UNCHANGED <<s, k, inp>>
Over == m.st = "over" /\ UNCHANGED vars
Next == Step \/ NextJob \/ Finish \/ Over
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Exact(i) == \A x \in 1..i : Jobs[s[x]].exact
Independent == \A i \in 1..Len(hist) : Exact(i) =>
  /\ hist[i].st = "ok" /\ hist[i].v = Jobs[s[i]].v
  /\ hist[i].p = Len(Concat(SubSeq(s, 1, i)))
Ordered == \A i \in 1..Len(hist)-1 : hist[i].p <= hist[i+1].p
=============================================================================
