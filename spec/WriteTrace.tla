----------------------------- MODULE WriteTrace -----------------------------
(* Checks recorded encoding sessions against Writer: the jobs, the sink's    *)
(* budget, the bytes it got and what was observed after each job.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT SetCode
Table == JsonDeserialize(IOEnv.CT_TYPES)
Cases == ndJsonDeserialize(IOEnv.CT_CASES)
VARIABLES c, k, out, w
Budget == Cases[c].budget
Serr == Cases[c].serr
W == INSTANCE Writer WITH Structs <- Table, MaxBinary <- 16777216, MaxCollection <- 10000000, Block <- 64,
                          budget <- Budget, serr <- Serr
Obs == Cases[c].obs[k]
Init == /\ c \in 1..Len(Cases) /\ k = 1 /\ out = <<>> /\ w = W!WStart(Cases[c].jobs[1])
Step == w.st = "run" /\ W!WriterStep /\ UNCHANGED <<c, k>>
NextJob == /\ w.st = "ok" /\ k < Len(Cases[c].jobs)
           /\ k' = k + 1 /\ w' = W!WStart(Cases[c].jobs[k+1]) /\ UNCHANGED <<c, out>>
Finished == w.st = "err" \/ (w.st = "ok" /\ k = Len(Cases[c].jobs))
Done == Finished /\ UNCHANGED <<c, k, out, w>>
Next == Step \/ NextJob \/ Done
Spec == Init /\ [][Next]_<<c, k, out, w>>
-----------------------------------------------------------------------------
Recorded == k <= Len(Cases[c].obs)
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
\* every job ends the way the machine says, having produced that many bytes
JobsAgree ==
  CASE w.st = "ok" -> /\ Obs.r = "ok" /\ Obs.p = Len(out)
                      /\ Cases[c].jobs[k].op = "wfield" => Obs.v = <<w.last % 65536>>
    [] w.st = "err" -> Obs.r = "err" /\ Obs.e \in w.v
\* the sink holds what the machine wrote; after a failure it may hold less
BytesAgree ==
  Finished => IF w.st = "ok" THEN Cases[c].out = out
              ELSE Prefix(Cases[c].out, out)
Conforms == w.st # "run" => Recorded /\ JobsAgree /\ BytesAgree
=============================================================================
