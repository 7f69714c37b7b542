------------------------------- MODULE BlockMC ------------------------------
(* Taking several elements of a list in one step makes no difference: the    *)
(* reader and the writer that go by twos end as those that go one by one.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT SetCode
Table == JsonDeserialize(IOEnv.CT_TYPES)
Jobs == ndJsonDeserialize(IOEnv.CT_JOBS)   \* [job, a: alphabet (byte strings), pre: initial bytes, n: strings]
VARIABLES j, inp, a, b, out, out2, wa, wb, ph
R1 == INSTANCE Reader WITH Structs <- Table, MaxBinary <- 5, MaxCollection <- 10, Block <- 1000,
                           MinSkipDepth <- 64, closed <- TRUE, eof <- "Eof", m <- a
R2 == INSTANCE Reader WITH Structs <- Table, MaxBinary <- 5, MaxCollection <- 10, Block <- 2,
                           MinSkipDepth <- 64, closed <- TRUE, eof <- "Eof", m <- b
W1 == INSTANCE Writer WITH Structs <- Table, MaxBinary <- 5, MaxCollection <- 10, Block <- 1000,
                           budget <- 6, serr <- "full", w <- wa
W2 == INSTANCE Writer WITH Structs <- Table, MaxBinary <- 5, MaxCollection <- 10, Block <- 2,
                           budget <- 6, serr <- "full", w <- wb, out <- out2
vars == <<j, inp, a, b, out, out2, wa, wb, ph>>
ws == <<out, out2, wa, wb>>
Idle == [st |-> "idle"]
Init == /\ j \in 1..Len(Jobs) /\ inp = Jobs[j].pre /\ a = Idle /\ b = Idle /\ ph = "feed"
        /\ out = <<>> /\ out2 = <<>> /\ wa = Idle /\ wb = Idle
Feed == /\ ph = "feed" /\ Len(inp) < Len(Jobs[j].pre) + Jobs[j].n
        /\ \E i \in 1..Len(Jobs[j].a) : inp' = inp \o Jobs[j].a[i]
        /\ UNCHANGED <<j, a, b, ph, ws>>
Go == /\ ph = "feed" /\ ph' = "one" /\ a' = R1!Start(Jobs[j].job, 0) /\ UNCHANGED <<j, inp, b, ws>>
One == ph = "one" /\ a.st = "run" /\ R1!ReaderStep /\ UNCHANGED <<j, inp, b, ph, ws>>
Turn == ph = "one" /\ a.st # "run" /\ ph' = "two" /\ b' = R2!Start(Jobs[j].job, 0) /\ UNCHANGED <<j, inp, a, ws>>
Two == ph = "two" /\ b.st = "run" /\ R2!ReaderStep /\ UNCHANGED <<j, inp, a, ph, ws>>
\* what was decoded is written again
Back == /\ ph = "two" /\ b.st = "ok" /\ Jobs[j].job.op = "read" /\ ph' = "back"
        /\ wa' = W1!WStart([op |-> "write", t |-> Jobs[j].job.t, v |-> b.v])
        /\ wb' = W2!WStart([op |-> "write", t |-> Jobs[j].job.t, v |-> b.v])
        /\ UNCHANGED <<j, inp, a, b, out, out2>>
Write1 == ph = "back" /\ wa.st = "run" /\ W1!WriterStep /\ UNCHANGED <<j, inp, a, b, out2, wb, ph>>
Write2 == ph = "back" /\ wa.st # "run" /\ wb.st = "run" /\ W2!WriterStep /\ UNCHANGED <<j, inp, a, b, out, wa, ph>>
Next == Feed \/ Go \/ One \/ Turn \/ Two \/ Back \/ Write1 \/ Write2
Spec == Init /\ [][Next]_vars
SameRead == ph = "two" /\ b.st # "run" => a.st = b.st /\ a.v = b.v /\ (a.st = "err" \/ a.pos = b.pos)
SameWrite == ph = "back" /\ wa.st # "run" /\ wb.st # "run" => out = out2 /\ wa.st = wb.st /\ wa.v = wb.v
=============================================================================
