------------------------------- MODULE SinkMC -------------------------------
(* The encoder in dialogue with a sink, which answers every request to take  *)
(* bytes by taking as many as it likes, by an interruption, by taking none   *)
(* for good, or by a failure.  Whatever it does, it never holds anything but *)
(* a prefix of the encoding, and all of it if it did not fail.  Every        *)
(* finished dialogue is printed and repeated with the code.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT SetCode
Table == JsonDeserialize(IOEnv.CT_TYPES)
Jobs == ndJsonDeserialize(IOEnv.CT_JOBS)   \* [job, b: the encoding, ev]
VARIABLES j, out, w, unit, acc, sched, events, hit, done
W == INSTANCE Writer WITH Structs <- Table, MaxBinary <- 16777216, MaxCollection <- 10000000, Block <- 64,
                          budget <- 1000000000, serr <- "none"
vars == <<j, out, w, unit, acc, sched, events, hit, done>>
Job == Jobs[j]
Init == /\ j \in 1..Len(Jobs) /\ out = <<>> /\ w = W!WStart(Jobs[j].job) /\ unit = 1
        /\ acc = 0 /\ sched = <<>> /\ events = 0 /\ hit = "no" /\ done = FALSE
Offered == Len(out) - acc
\* the next token is produced once the sink took the last one; payloads and doubles are offered at once
Step == /\ w.st = "run" /\ Offered = 0 /\ hit = "no" /\ W!WriterStep
        /\ unit' = IF W!WRunning("raw") THEN 1000000000 ELSE IF W!WRunning("w") /\ W!WTop.t.k = "double" THEN 8 ELSE 1
        /\ UNCHANGED <<j, acc, sched, events, hit, done>>
Asked == Offered > 0 /\ hit = "no"
Request == IF Offered < unit THEN Offered ELSE unit
Takes == /\ Asked
         /\ \E k \in 1..Request :
              /\ (IF k = Request THEN TRUE ELSE events < Job.ev)
              /\ acc' = acc + k /\ sched' = Append(sched, k)
              /\ events' = IF k = Request THEN events ELSE events + 1
         /\ UNCHANGED <<j, out, w, unit, hit, done>>
Interrupts == /\ Asked /\ events < Job.ev
              /\ events' = events + 1 /\ sched' = Append(sched, 0) /\ UNCHANGED <<j, out, w, unit, acc, hit, done>>
\* -3 is a passing failure, which a second request would not meet
Fails == /\ Asked /\ (\E f \in {-1, -2, -3} : hit' = (IF f = -2 THEN "zero" ELSE "fault") /\ sched' = Append(sched, f))
         /\ UNCHANGED <<j, out, w, unit, acc, events, done>>
Terminal == hit # "no" \/ (w.st # "run" /\ Offered = 0)
Report == /\ Terminal /\ ~done /\ done' = TRUE
          /\ PrintT("@" \o ToJson([j |-> j, sched |-> sched, hit |-> hit, n |-> acc]))
          /\ UNCHANGED <<j, out, w, unit, acc, sched, events, hit>>
Over == done /\ UNCHANGED vars
Next == Step \/ Takes \/ Interrupts \/ Fails \/ Report \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
Held == SubSeq(out, 1, acc)
CleanPrefix == Held = SubSeq(Job.b, 1, acc)
Complete == (Terminal /\ hit = "no") => w.st = "ok" /\ Held = Job.b
Terminates == <>done
=============================================================================
