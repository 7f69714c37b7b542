-------------------------------- MODULE PipeMC ------------------------------
(* The writer piped into the reader, for every value of Domain: what comes   *)
(* out is what went in, and exactly the bytes written are consumed.  The     *)
(* pipe refines Channel.  Every (value, encoding) is printed as a test.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT SetCode
Table == JsonDeserialize(IOEnv.CT_TYPES)
Jobs == ndJsonDeserialize(IOEnv.CT_JOBS)   \* [t |-> type, rich]
VARIABLES j, v, out, w, m, ph, queue, pos
D == INSTANCE Domain WITH Structs <- Table
W == INSTANCE Writer WITH Structs <- Table, MaxBinary <- 16777216, MaxCollection <- 10000000, Block <- 64,
                          budget <- 1000000000, serr <- "none"
R == INSTANCE Reader WITH Structs <- Table, MaxBinary <- 16777216, MaxCollection <- 10000000, Block <- 64,
                          MinSkipDepth <- 64, inp <- out, closed <- TRUE, eof <- "IO:UnexpectedEof"
C == INSTANCE Channel
vars == <<j, v, out, w, m, ph, queue, pos>>
Init == /\ j \in 1..Len(Jobs) /\ v \in D!Vals(Jobs[j].t, Jobs[j].rich)
        /\ out = <<>> /\ w = W!WStart([op |-> "write", t |-> Jobs[j].t, v |-> v])
        /\ m = R!Start([op |-> "read", t |-> Jobs[j].t], 0) /\ ph = "write" /\ C!CEmpty
Write == ph = "write" /\ w.st = "run" /\ W!WriterStep /\ UNCHANGED <<j, v, m, ph, queue, pos>>
Sent == /\ ph = "write" /\ w.st = "ok" /\ ph' = "read" /\ C!Send(v, Len(out)) /\ UNCHANGED <<j, v, out, w, m>>
Read == ph = "read" /\ m.st = "run" /\ R!ReaderStep /\ UNCHANGED <<j, v, out, w, ph, queue, pos>>
Received == /\ ph = "read" /\ m.st = "ok" /\ ph' = "done"
            /\ C!Receive(m.v) /\ pos' = m.pos
            /\ PrintT("@" \o ToJson([j |-> j, v |-> v, b |-> out]))
            /\ UNCHANGED <<j, v, out, w, m>>
\* a missing bare value is refused
Refused == ph = "write" /\ w.st = "err" /\ w.v = {"MissingValue"} /\ ph' = "done" /\ UNCHANGED <<j, v, out, w, m, queue, pos>>
Done == ph = "done" /\ UNCHANGED vars
Next == Write \/ Sent \/ Read \/ Received \/ Refused \/ Done
Spec == Init /\ [][Next]_vars
\* deadlock freedom: the value sent is received, consuming its extent
RoundTrip == ph = "done" => queue = <<>>
=============================================================================
