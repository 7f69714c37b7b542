----------------------------- MODULE PageIndex ------------------------------
(* Reading the page index: one task per declared extent, each decoded by     *)
(* Reader from exactly the bytes of that extent within the fetched chunk.    *)
(* A task is [chunk: bytes, off: position of the chunk in the file,          *)
(* rgs: row groups of chunks as in ParquetFile].                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT SetCode
Table == JsonDeserialize(IOEnv.CT_TYPES)
VARIABLES task, g, k, x, inp, m, acc, st
\* g, k, x: row group, column, extent (1 offset index, 2 column index) under way
P == INSTANCE ParquetFile
R == INSTANCE Reader WITH Structs <- Table, MaxBinary <- 16777216, MaxCollection <- 10000000, Block <- 64,
                          MinSkipDepth <- 64, closed <- TRUE, eof <- "IO:UnexpectedEof"
pvars == <<task, g, k, x, inp, m, acc, st>>
Rgs == task.rgs
Idle == R!Machine(0, <<>>)
PInit(t) == /\ task = t /\ g = 1 /\ k = 0 /\ x = 0 /\ inp = <<>> /\ m = Idle
            /\ acc = [i \in 1..Len(t.rgs) |-> <<>>] /\ st = "next"
Inside(e) == /\ ~P!NegativeExtent(e) /\ e.l # P!Zero(4)
             /\ P!Leq(task.off, e.o)
             /\ P!Leq(P!End(e), P!Add(task.off, P!N(Len(task.chunk))))
Type(i) == [k |-> "ref", n |-> IF i = 1 THEN "OffsetIndex" ELSE "ColumnIndex"]
Bytes(e) == LET s == P!Count(P!Sub(e.o, task.off)) IN SubSeq(task.chunk, s + 1, s + P!Count(e.l))
Begin(i, e) == /\ inp' = Bytes(e)
               /\ m' = R!Start([op |-> "read", t |-> Type(i)], 0) /\ x' = i
NextChunk ==
  /\ st = "next" /\ g <= Len(Rgs) /\ k < Len(Rgs[g])
  /\ LET ch == Rgs[g][k + 1] IN
     IF ~P!Complete(ch)
     THEN acc' = [acc EXCEPT ![g] = Append(@, <<>>)] /\ k' = k + 1 /\ UNCHANGED <<x, inp, m, st>>
     ELSE /\ acc' = acc /\ k' = k
          /\ IF \A i \in 1..2 : Inside(P!Extents(ch)[i])
             THEN Begin(1, P!Extents(ch)[1]) /\ st' = "decode"
             ELSE st' = "err" /\ UNCHANGED <<x, inp, m>>
  /\ UNCHANGED <<task, g>>
NextGroup == /\ st = "next" /\ g <= Len(Rgs) /\ k = Len(Rgs[g]) /\ g' = g + 1 /\ k' = 0
             /\ UNCHANGED <<task, x, inp, m, acc, st>>
Decode == /\ st = "decode" /\ m.st = "run" /\ R!ReaderStep /\ UNCHANGED <<task, g, k, x, inp, acc, st>>
Decoded ==
  /\ st = "decode" /\ m.st # "run"
  /\ CASE m.st = "ok" /\ x = 1 ->
            /\ acc' = [acc EXCEPT ![g] = Append(@, <<m.v>>)]
            /\ Begin(2, P!Extents(Rgs[g][k + 1])[2]) /\ UNCHANGED <<k, st>>
       [] m.st = "ok" /\ x = 2 ->
            /\ acc' = [acc EXCEPT ![g][k + 1] = Append(@, m.v)]
            /\ k' = k + 1 /\ st' = "next" /\ UNCHANGED <<x, inp, m>>
       [] OTHER -> st' = m.st /\ UNCHANGED <<acc, k, x, inp, m>>
  /\ UNCHANGED <<task, g>>
Finish == st = "next" /\ g > Len(Rgs) /\ st' = "ok" /\ UNCHANGED <<task, g, k, x, inp, m, acc>>
Final == st \in {"ok", "err", "unspec"}
PNext == NextChunk \/ NextGroup \/ Decode \/ Decoded \/ Finish
-----------------------------------------------------------------------------
\* one result per column chunk, present exactly where all of it is declared
Shape == st = "ok" => /\ Len(acc) = Len(Rgs)
                      /\ \A i \in 1..Len(Rgs) : /\ Len(acc[i]) = Len(Rgs[i])
                                                /\ \A y \in 1..Len(Rgs[i]) : Len(acc[i][y]) = IF P!Complete(Rgs[i][y]) THEN 2 ELSE 0
\* nothing outside of the extent under way is looked at
Confined == st = "decode" => /\ inp = Bytes(P!Extents(Rgs[g][k + 1])[x])
                             /\ m.pos <= Len(inp)
=============================================================================
