------------------------------- MODULE RangeMC ------------------------------
(* Enumerates small declarations of page indexes, states what a range has to *)
(* be in terms of what it contains, and prints each case as a test.          *)
EXTENDS ParquetFile, FiniteSets, Json, IOUtils
Jobs == ndJsonDeserialize(IOEnv.CT_JOBS)   \* [o: <<>> or <<4 limbs>>..., l: <<>> or <<2 limbs>>..., n: chunks]
VARIABLES j, chunks, done
Set(s) == {s[i] : i \in 1..Len(s)}
Decls(job) == [oo : Set(job.o), ol : Set(job.l), co : Set(job.o), cl : Set(job.l)]
Init == /\ j \in 1..Len(Jobs) /\ done = FALSE
        /\ \E f \in [1..Jobs[j].n -> Decls(Jobs[j])] : chunks = f
Report == /\ ~done /\ done' = TRUE /\ UNCHANGED <<j, chunks>>
          /\ PrintT("@" \o ToJson([chunks |-> chunks]))
Next == Report \/ (done /\ UNCHANGED <<j, chunks, done>>)
Spec == Init /\ [][Next]_<<j, chunks, done>>
\* a range contains every non-empty extent, and both its ends are ends of extents
Contains(r, x) == Leq(r[1], x.o) /\ Leq(End(x), r[2])
Some == {x \in Declared(chunks) : x.l # Zero(4)}
Laws == ~BadDeclaration(chunks) =>
  \A r \in Ranges(chunks) :
    IF r = <<>> THEN Some = {}
    ELSE /\ \A x \in Some : Contains(r, x)
         /\ \E x \in Declared(chunks) : x.o = r[1]
         /\ \E x \in Declared(chunks) : End(x) = r[2]
         /\ Less(r[1], r[2])
=============================================================================
