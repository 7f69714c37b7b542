------------------------------ MODULE ReadTrace -----------------------------
(* Checks recorded decoding sessions against Reader.  Every case is one      *)
(* execution of the real code: the bytes its source held, the jobs it was    *)
(* asked to do in sequence, and what was observed after each of them.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT SetCode
Table == JsonDeserialize(IOEnv.CT_TYPES)
Cases == ndJsonDeserialize(IOEnv.CT_CASES)
VARIABLES c, k, m
Inp == Cases[c].b
Eof == Cases[c].eof
R == INSTANCE Reader WITH Structs <- Table, MaxBinary <- 16777216, MaxCollection <- 10000000, Block <- 64,
                          MinSkipDepth <- 64, inp <- Inp, closed <- TRUE, eof <- Eof
Obs == Cases[c].obs[k]
Saw(e) == k <= Len(Cases[c].obs) /\ Obs.r = "err" /\ Obs.e = e

Init == /\ c \in 1..Len(Cases) /\ k = 1 /\ m = R!Start(Cases[c].jobs[1], 0)
\* the permitted resource errors are taken where the execution shows them
Step ==
  /\ m.st = "run"
  /\ IF Saw("NestingTooDeep") /\ ENABLED R!SkipTooDeep THEN R!SkipTooDeep
     ELSE IF Saw("ReserveError") /\ ENABLED R!ReserveFails THEN R!ReserveFails
     ELSE R!ReaderStep
  /\ UNCHANGED <<c, k>>
NextJob ==
  /\ m.st = "ok" /\ k < Len(Cases[c].jobs)
  /\ k' = k + 1 /\ m' = R!Start(Cases[c].jobs[k+1], m.pos) /\ c' = c
Finished == m.st \in {"err", "unspec"} \/ (m.st = "ok" /\ k = Len(Cases[c].jobs))
Done == Finished /\ UNCHANGED <<c, k, m>>
Next == Step \/ NextJob \/ Done
Spec == Init /\ [][Next]_<<c, k, m>>

-----------------------------------------------------------------------------
Crashes == {"Panic", "Crash", "Hang", "BadRest"}
NoCrash == Obs.r = "ok" \/ Obs.e \notin Crashes
\* filling a value somebody else holds may be refused, but never alters it
Shared == "shared" \in DOMAIN Cases[c].jobs[k] /\ Cases[c].jobs[k].shared
MayRefuse == Shared /\ Saw("DuplicateField")
Exact ==
  CASE m.st = "ok" -> \/ Obs.r = "ok" /\ Obs.p = m.pos /\ ToString(Obs.v) = ToString(m.v)
                      \/ MayRefuse
    [] m.st = "err" -> (Obs.r = "err" /\ Obs.e \in m.v) \/ MayRefuse
    [] m.st = "unspec" -> NoCrash
Recorded == k <= Len(Cases[c].obs)
\* the execution is one of the machine
Conforms == m.st # "run" => Recorded /\ Exact
\* weaker views of the same, for properties that only speak of a part of it:
\* success and failure in the right places, with the right extents
Extents ==
  m.st # "run" =>
    /\ Recorded
    /\ CASE m.st = "ok" -> Obs.r = "ok" /\ Obs.p = m.pos
         [] m.st = "err" -> Obs.r = "err" /\ NoCrash
         [] m.st = "unspec" -> NoCrash
\* whatever the machine rejects for want of input is rejected for that reason
Cuts == (m.st = "err" /\ Eof \in m.v) => Recorded /\ Obs.r = "err" /\ Obs.e \in m.v
\* no execution ends in a crash
Survives == m.st # "run" => Recorded /\ NoCrash
=============================================================================
