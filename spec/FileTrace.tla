------------------------------ MODULE FileTrace -----------------------------
(* Checks recorded calls of the parquet file functions against ParquetFile.  *)
(* A case is [kind, file, chunks, hit, res]; hit is the kind of the fault    *)
(* the environment injected and the code got to see, "" if none.             *)
EXTENDS ParquetFile, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CT_CASES)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Res == Cases[c].res
File == Cases[c].file
Chunks == Cases[c].chunks
Faulted == Cases[c].hit # ""
Crashes == {"Panic", "Crash", "Hang"}
Refused == Res.r = "err" /\ Res.e \notin Crashes
\* a fault that surfaces keeps its kind
Surfaced == \/ Res.r = "err" /\ Res.e = "IO:" \o Cases[c].hit
            \/ Cases[c].hit = "End" /\ Refused        \* the file has become shorter
FooterOk ==
  \/ FooterValid(File) /\ Res.r = "ok" /\ SameBytes(Res.v[1], Footer(File))
  \/ ~FooterValid(File) /\ Refused
  \/ Faulted /\ Surfaced
RangeOk ==
  IF BadDeclaration(Chunks) THEN Res.r = "err" /\ Res.e = "InvalidOffset"
  ELSE Res.r = "ok" /\ Res.v \in Ranges(Chunks)
Backed(r) == Leq(r[2], File.len)
Huge(r) == Leq(N(Big), Sub(r[2], r[1]))
ChunkOk ==
  \/ BadDeclaration(Chunks) /\ Res.r = "err" /\ Res.e = "InvalidOffset"
  \/ /\ ~BadDeclaration(Chunks)
     /\ \E r \in Ranges(Chunks) :
          \/ r = <<>> /\ Res.r = "ok" /\ Res.v = <<>>
          \/ /\ r # <<>> /\ Backed(r) /\ Res.r = "ok" /\ Len(Res.v) = 3
             /\ Res.v[2] = r[1] /\ Res.v[3] = r[2]
             /\ SameBytes(Res.v[1], Extract(File, r[1], Sub(r[2], r[1])))
          \/ r # <<>> /\ (~Backed(r) \/ Huge(r)) /\ Refused
          \/ Faulted /\ Surfaced
Conforms == CASE Cases[c].kind = "footer" -> FooterOk
              [] Cases[c].kind = "range" -> RangeOk
              [] Cases[c].kind = "chunk" -> ChunkOk
=============================================================================
