----------------------------- MODULE HolderTrace ----------------------------
(* Checks recorded histories of the holders of reference-counted values:     *)
(* decoding into a sole holder is decoding into the value, decoding into a   *)
(* shared one is refused or done on a copy, and nobody else sees anything.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT SetCode
Table == JsonDeserialize(IOEnv.CT_TYPES)
Cases == ndJsonDeserialize(IOEnv.CT_CASES)  \* [prior, ops: [o, a, b, job, in], obs: [r, h]]
VARIABLES c, k, ptr, cell, weak, m, st
Holder == 1..3
Op == Cases[c].ops[k]
Obs == Cases[c].obs[k]
Inp == IF k <= Len(Cases[c].ops) THEN Op.in ELSE <<>>
H == INSTANCE Holders
R == INSTANCE Reader WITH Structs <- Table, MaxBinary <- 16777216, MaxCollection <- 10000000, Block <- 64,
                          MinSkipDepth <- 64, inp <- Inp, closed <- TRUE, eof <- "IO:UnexpectedEof"
vars == <<c, k, ptr, cell, weak, m, st>>
Idle == [st |-> "idle"]
Init == /\ c \in 1..Len(Cases) /\ k = 1 /\ ptr = [a \in Holder |-> IF a = 1 THEN 1 ELSE 0]
        /\ cell = <<Cases[c].prior>> /\ weak = {} /\ m = Idle /\ st = "run"
Recorded == k <= Len(Cases[c].obs)
Plain == /\ st = "run" /\ k <= Len(Cases[c].ops) /\ Op.o \notin {"fill", "ffield"}
         /\ CASE Op.o = "clone" -> H!Clone(Op.a, Op.b)
              [] Op.o = "drop" -> H!Drop(Op.a)
              [] Op.o = "weak" -> H!Weaken(Op.a)
              [] Op.o = "unweak" -> H!Forget
         /\ st' = "check" /\ UNCHANGED <<c, k, m>>
Begin == /\ st = "run" /\ k <= Len(Cases[c].ops) /\ Op.o \in {"fill", "ffield"} /\ m = Idle
         /\ m' = R!Start([Op.job EXCEPT !.prior = cell[ptr[Op.a]]], 0)
         /\ UNCHANGED <<c, k, ptr, cell, weak, st>>
Decode == m.st = "run" /\ R!ReaderStep /\ UNCHANGED <<c, k, ptr, cell, weak, st>>
\* what holder a shows in the recording
Seen(a) == Obs.h[a]
Same(x, y) == ToString(x) = ToString(y)
\* the recording decides where the outcome is open: the rest of a failed decoding, refusal or copy
Finish ==
  /\ st = "run" /\ m.st \in {"ok", "err", "unspec"} /\ Recorded
  /\ LET v == IF m.st = "ok" THEN m.v ELSE IF Seen(Op.a) = <<>> THEN cell[ptr[Op.a]] ELSE Seen(Op.a)[1] IN
     IF H!Sole(Op.a) THEN H!Install(Op.a, v)
     ELSE IF Same(Seen(Op.a), H!Shown(Op.a)) THEN H!Refuse(Op.a)
     ELSE H!Split(Op.a, v)
  /\ st' = "check" /\ UNCHANGED <<c, k, m>>
Go == /\ st = "check" /\ k' = k + 1 /\ m' = Idle
      /\ st' = (IF k < Len(Cases[c].ops) THEN "run" ELSE "done")
      /\ UNCHANGED <<c, ptr, cell, weak>>
Over == st = "done" /\ UNCHANGED vars
Next == Plain \/ Begin \/ Decode \/ Finish \/ Go \/ Over
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Crashes == {"Panic", "Crash", "Hang", "BadRest"}
\* (evaluated before the sharing changes: H!Sole of the acting holder)
Outcome ==
  (st = "run" /\ m.st \in {"ok", "err", "unspec"}) =>
    /\ Recorded
    /\ Obs.r \notin Crashes
    /\ CASE m.st = "ok" -> (Obs.r = "ok" /\ Same(Seen(Op.a), <<m.v>>)) \/ (~H!Sole(Op.a) /\ Obs.r # "ok" /\ Same(Seen(Op.a), H!Shown(Op.a)))
         [] m.st = "err" -> Obs.r \in m.v \/ (~H!Sole(Op.a) /\ Obs.r = "DuplicateField")
         [] OTHER -> TRUE
View == st = "check" => Recorded /\ \A a \in Holder : Same(Seen(a), H!Shown(a))
=============================================================================
