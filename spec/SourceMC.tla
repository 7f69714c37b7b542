------------------------------ MODULE SourceMC ------------------------------
(* The decoder in dialogue with a byte stream.  The decoder asks for the     *)
(* bytes its current token certainly needs; the stream answers every request *)
(* with as few of them as it likes, with an interruption, with a failure or, *)
(* behind its last byte, with the end of file.  Whatever the stream does,    *)
(* the outcome is that of the plain bytes unless it failed, and nothing      *)
(* behind the value is ever asked for.  Every finished dialogue is printed   *)
(* and repeated with the code.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT SetCode
Table == JsonDeserialize(IOEnv.CT_TYPES)
Jobs == ndJsonDeserialize(IOEnv.CT_JOBS)   \* [job, b: content of the stream, whole: is it a whole value, v: this value, ev]
VARIABLES j, inp, m, sched, events, hit, done
Eof == "IO:UnexpectedEof"
R == INSTANCE Reader WITH Structs <- Table, MaxBinary <- 16777216, MaxCollection <- 10000000, Block <- 64,
                          MinSkipDepth <- 64, eof <- Eof, closed <- FALSE
vars == <<j, inp, m, sched, events, hit, done>>
Job == Jobs[j]
Content == Job.b
Init == /\ j \in 1..Len(Jobs) /\ inp = <<>> /\ m = R!Start(Jobs[j].job, 0)
        /\ sched = <<>> /\ events = 0 /\ hit = FALSE /\ done = FALSE

\* the token that is due: "double", "binary" or other
Due == CASE R!Running("val") -> R!Top.t.k
         [] R!Running("list") -> R!Top.e.k
         [] R!Running("skip") -> IF R!Top.wt = 7 THEN "double" ELSE IF R!Top.wt = 8 THEN "binary" ELSE "bytes"
         [] R!Running("token") -> IF R!Top.t = "skipbin" THEN "binary" ELSE "bytes"
         [] OTHER -> "bytes"
Have == Len(inp) - m.pos
\* how many bytes may be requested without risking to take more than the token has
Want == CASE Due = "double" -> 8 - Have
          [] Due \in {"binary", "string"} ->
               LET u == R!UlebTok(m.pos) IN
               IF u.r = "ok" THEN u.n + R!ToNat(u.v.l) - Have ELSE 1
          [] OTHER -> 1

\* the decoder's move needs its token complete
Step == R!ReaderStep /\ UNCHANGED <<j, inp, sched, events, hit, done>>
Asking == m.st = "run" /\ ~ENABLED R!ReaderStep
\* the stream's moves
Left == Len(Content) - Len(inp)
Delivers ==
  /\ Asking
  /\ \E k \in 1..Want :
       /\ k <= Left
       /\ (IF k = Want THEN TRUE ELSE events < Job.ev)
       /\ inp' = inp \o SubSeq(Content, Len(inp) + 1, Len(inp) + k)
       /\ sched' = Append(sched, k)
       /\ events' = IF k = Want THEN events ELSE events + 1
  /\ UNCHANGED <<j, m, hit, done>>
Interrupts == /\ Asking /\ events < Job.ev
              /\ events' = events + 1 /\ sched' = Append(sched, 0) /\ UNCHANGED <<j, inp, m, hit, done>>
\* a failure for good, or a passing one that a second request would not meet
Fails == /\ Asking /\ hit' = TRUE /\ (\E f \in {-1, -3} : sched' = Append(sched, f))
         /\ m' = [m EXCEPT !.st = "err", !.v = {"fault"}] /\ UNCHANGED <<j, inp, events, done>>
Ends == /\ Asking /\ Left = 0 /\ m' = [m EXCEPT !.st = "err", !.v = {Eof}]
        /\ UNCHANGED <<j, inp, sched, events, hit, done>>
Terminal == m.st \in {"ok", "err", "unspec"}
Report == /\ Terminal /\ ~done /\ done' = TRUE
          /\ PrintT("@" \o ToJson([j |-> j, sched |-> sched, hit |-> hit, st |-> m.st, p |-> m.pos, v |-> m.v]))
          /\ UNCHANGED <<j, inp, m, sched, events, hit>>
Over == done /\ UNCHANGED vars
Next == Step \/ Delivers \/ Interrupts \/ Fails \/ Ends \/ Report \/ Over
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* the outcome of a whole value does not depend on the stream's moves
Outcome == Terminal => \/ hit /\ m.st = "err" /\ m.v = {"fault"}
                       \/ ~hit /\ Job.whole /\ m.st = "ok" /\ m.v = Job.v /\ m.pos = Len(Content)
                       \/ ~hit /\ ~Job.whole
\* exactly the bytes consumed were taken from the stream
NoReadAhead == m.st = "ok" => Len(inp) = m.pos
Patient == Asking => Want >= 1
\* every move makes progress (and there is always one until the end: no deadlock), so dialogues end
Progress == [][done' \/ Len(sched') > Len(sched) \/ ToString(m') # ToString(m)]_vars
=============================================================================
