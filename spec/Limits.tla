------------------------------- MODULE Limits -------------------------------
(* The size limits, over declared lengths of the full 64 bits.  Payloads are *)
(* not represented, only how many bytes of them there are (avail) and how    *)
(* many are needed (per per element), so that lengths at and beyond the      *)
(* limits can be decided.  A case is one execution of the code:              *)
(*   op "read" | "skip": hdr = bytes of the header, kind = "binary" | "list" *)
(*      | "map", per, avail, obs; eof = the error of an exhausted source     *)
(*   op "write": len = number of elements (or bytes), kind, per, obs; head =  *)
(*      the first bytes of what was written (empty if not kept), code = type *)
(*      code of the elements, fill = the bytes the elements consist of, over *)
(*      and over, after lead letters a                                       *)
EXTENDS Wide, TLC, Json, IOUtils
MaxBinary == 16777216
MaxCollection == 10000000
Cases == ndJsonDeserialize(IOEnv.CT_CASES)
VARIABLES c, ph, pos, len
C == Cases[c]
Limit == IF C.kind = "binary" THEN MaxBinary ELSE MaxCollection
LimitError == IF C.kind = "binary" THEN "InvalidBinaryLen" ELSE "InvalidCollectionLen"
Exceeds(l, n) == Less(SignExtend(FromNat(n, 3), 4), l)    \* l is unsigned, n non-negative

Init == c \in 1..Len(Cases) /\ ph = "header" /\ pos = 0 /\ len = Zero(4)
HVarint(p) == LET q == VarintEnd(C.hdr, p, Len(C.hdr)) IN [v |-> VarintValue(C.hdr, p, q), n |-> q]
Decide(l, p) == /\ len' = l /\ pos' = p
                /\ ph' = IF Exceeds(l, Limit) THEN "rejected" ELSE "payload"
ReadHeader ==
  /\ ph = "header" /\ C.op \in {"read", "skip"}
  /\ CASE C.kind = "binary" -> LET v == HVarint(1) IN Decide(v.v, v.n)
       [] C.kind = "list" -> IF C.hdr[1] \div 16 # 15 THEN Decide(SignExtend(FromNat(C.hdr[1] \div 16, 2), 4), 1)
                             ELSE LET v == HVarint(2) IN Decide(v.v, v.n)
       [] C.kind = "map" -> LET v == HVarint(1) IN Decide(v.v, IF ToNat(v.v) = 0 THEN v.n ELSE v.n + 1)
  /\ c' = c
\* a write checks before it produces anything
CheckWrite ==
  /\ ph = "header" /\ C.op = "write"
  /\ len' = SignExtend(FromNat(C.len, 3), 4)
  /\ ph' = IF C.len > Limit THEN "rejected" ELSE "accepted"
  /\ pos' = IF C.len > Limit THEN 0
            ELSE (IF C.kind = "binary" THEN Len(VarintNat(C.len))
                  ELSE IF C.len < 15 THEN 1 ELSE 1 + Len(VarintNat(C.len))) + C.len * C.per
  /\ c' = c
HeaderOf(n) == IF C.kind = "binary" THEN VarintNat(n)
               ELSE IF n < 15 THEN <<C.code + 16 * n>> ELSE <<C.code + 240>> \o VarintNat(n)
Content(i) == IF i <= C.lead THEN 97 ELSE C.fill[((i - C.lead - 1) % Len(C.fill)) + 1]
HeadAgrees == \A i \in 1..Len(C.head) :
                 C.head[i] = (IF i <= Len(HeaderOf(C.len)) THEN HeaderOf(C.len)[i] ELSE Content(i - Len(HeaderOf(C.len))))
Payload ==
  /\ ph = "payload"
  /\ LET need == ToNat(len) * C.per IN
     IF need <= C.avail THEN ph' = "accepted" /\ pos' = pos + need
     ELSE ph' = "starved" /\ pos' = pos
  /\ UNCHANGED <<c, len>>
Over == ph \in {"rejected", "accepted", "starved"} /\ UNCHANGED <<c, ph, pos, len>>
Next == ReadHeader \/ CheckWrite \/ Payload \/ Over
Spec == Init /\ [][Next]_<<c, ph, pos, len>>
Conforms ==
  CASE ph = "rejected" -> /\ C.obs.r = "err" /\ C.obs.e = LimitError
                          /\ C.obs.u <= pos          \* nothing of the payload consumed or produced
                          /\ C.obs.pk < 65536        \* nor memory reserved for it
    [] ph = "accepted" -> C.obs.r = "ok" /\ C.obs.p = pos /\ (C.op = "write" => HeadAgrees)
    [] ph = "starved" -> C.obs.r = "err" /\ C.obs.e \in {C.eof, "ReserveError"}
    [] OTHER -> TRUE
\* the limits themselves are within, the next length is not, and no high bit is ignored
Sound == ph = "rejected" => Exceeds(len, Limit)
=============================================================================
