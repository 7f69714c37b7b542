------------------------------- MODULE ReadMC -------------------------------
(* Explores the decoder exhaustively: the source is fed lazily, a chunk of   *)
(* its alphabet at a time and only when the machine cannot go on without, or *)
(* it ends.  Every terminal state is printed; each one is a test of the code.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT SetCode
Table == JsonDeserialize(IOEnv.CT_TYPES)
Jobs == ndJsonDeserialize(IOEnv.CT_JOBS)   \* [job, a: alphabet (byte strings), max: bytes, pre: initial bytes]
VARIABLES j, inp, closed, m, done
Eof == "IO:UnexpectedEof"
R == INSTANCE Reader WITH Structs <- Table, MaxBinary <- 16777216, MaxCollection <- 10000000, Block <- 64,
                          MinSkipDepth <- 64, eof <- Eof
vars == <<j, inp, closed, m, done>>
Job == Jobs[j]
Init == /\ j \in 1..Len(Jobs) /\ inp = Jobs[j].pre /\ closed = FALSE /\ done = FALSE
        /\ m = R!Start(Jobs[j].job, 0)
Step == R!ReaderStep /\ UNCHANGED <<j, inp, closed, done>>
Starved == m.st = "run" /\ ~closed /\ ~ENABLED R!ReaderStep
Feed == /\ Starved
        /\ \E i \in 1..Len(Job.a) : /\ Len(inp) + Len(Job.a[i]) <= Job.max
                                    /\ inp' = inp \o Job.a[i]
        /\ UNCHANGED <<j, closed, m, done>>
Close == Starved /\ closed' = TRUE /\ UNCHANGED <<j, inp, m, done>>
Terminal == m.st \in {"ok", "err", "unspec"}
Report == /\ Terminal /\ ~done /\ done' = TRUE
          /\ PrintT("@" \o ToJson([j |-> j, b |-> inp, closed |-> closed, st |-> m.st, p |-> m.pos, v |-> m.v]))
          /\ UNCHANGED <<j, inp, closed, m>>
Over == done /\ UNCHANGED vars
Next == Step \/ Feed \/ Close \/ Report \/ Over
Spec == Init /\ [][Next]_vars

\* laws of the machine
TypeOK == /\ m.st \in {"run", "ok", "err", "unspec"}
          /\ m.pos \in 0..Len(inp)
          /\ (m.st = "ok" <=> (m.stk = <<>>))
\* a decoder never looks beyond what it needs: it only ends ok having consumed what it was fed,
\* up to the rest of the last chunk, and an end of file is the only thing it says about a cut
Honest == /\ m.st = "err" => m.v # {}
          /\ (closed /\ Terminal) => m.st = "err" /\ m.v \subseteq {Eof, "InvalidCollectionLen"} /\ Eof \in m.v
\* consumption never moves backwards
Monotone == [][m'.pos >= m.pos /\ (Len(inp') >= Len(inp))]_vars
=============================================================================
