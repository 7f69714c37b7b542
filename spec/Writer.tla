------------------------------- MODULE Writer -------------------------------
(* The encoder as a machine that hands tokens to a sink.  The sink accepts   *)
(* bytes (out) until its budget is used up, after which it fails with the    *)
(* error serr; how it splits what it accepts (short writes, interruptions)   *)
(* is invisible.                                                             *)
(*   w.stk  what remains to be written, innermost first                      *)
(*   w.st   "run", "ok", "err"                                               *)
(*   w.v    the set of permitted errors when err                             *)
(*   w.last the field id context of a bare field                             *)
EXTENDS Types, SequencesExt
CONSTANTS MaxBinary, MaxCollection, Block
VARIABLES out, budget, serr, w

WTop == Head(w.stk)
WRest == Tail(w.stk)
WRunning(f) == w.st = "run" /\ w.stk # <<>> /\ WTop.f = f
WPush(fr, s) == <<fr>> \o s

\* hand bs to the sink and continue with the work s
Emit(bs, s) ==
  LET room == budget - Len(out) IN
  IF Len(bs) <= room
  THEN /\ out' = out \o bs
       /\ w' = [w EXCEPT !.stk = s, !.st = IF s = <<>> THEN "ok" ELSE "run"]
  ELSE /\ out' = out \o SubSeq(bs, 1, room)
       /\ w' = [w EXCEPT !.stk = <<>>, !.st = "err", !.v = {serr}]
Silent(s) == /\ out' = out
             /\ w' = [w EXCEPT !.stk = s, !.st = IF s = <<>> THEN "ok" ELSE "run"]
WFail(e) == out' = out /\ w' = [w EXCEPT !.stk = <<>>, !.st = "err", !.v = {e}]

\* bytes of a field header; the field id context moves to id
Header(code, id, last) ==
  IF id > last /\ id - last <= 15 THEN <<code + 16 * (id - last)>>
  ELSE <<code>> \o VarintSigned(FromI16(id))
ListHeader(code, len) == IF len < 15 THEN <<code + 16 * len>> ELSE <<code + 240>> \o VarintNat(len)

ValueFrame(t, v) == [f |-> "w", t |-> t, v |-> v]
FixedBytes(t, v) ==
  CASE t.k = "bool" -> <<IF v THEN 1 ELSE 2>>
    [] t.k = "i8" -> <<v>>
    [] IsInt(t) -> VarintSigned(v)
    [] t.k = "double" -> v

WriteFixed == /\ WRunning("w") /\ (WTop.t.k \in {"bool", "i8", "double"} \/ IsInt(WTop.t))
              /\ Emit(FixedBytes(WTop.t, WTop.v), WRest)
WriteBinary ==
  /\ WRunning("w") /\ WTop.t.k \in {"binary", "string"}
  /\ IF Len(WTop.v) > MaxBinary THEN WFail("InvalidBinaryLen")
     ELSE Emit(VarintNat(Len(WTop.v)), WPush([f |-> "raw", v |-> WTop.v], WRest))
WritePayload == WRunning("raw") /\ Emit(WTop.v, WRest)

WriteListHeader ==
  /\ WRunning("w") /\ WTop.t.k \in {"list", "set"}
  /\ IF Len(WTop.v) > MaxCollection THEN WFail("InvalidCollectionLen")
     ELSE Emit(ListHeader(ElemCode(WTop.t.e), Len(WTop.v)),
               WPush([f |-> "wlist", e |-> WTop.t.e, v |-> WTop.v, i |-> 1], WRest))
\* as long as many elements of fixed form are left, Block of them are handed over at once
WriteElement ==
  /\ WRunning("wlist")
  /\ IF WTop.i > Len(WTop.v) THEN Silent(WRest)
     ELSE IF WTop.i + 2 * Block <= Len(WTop.v) /\ (WTop.e.k \in {"bool", "i8", "double"} \/ IsInt(WTop.e))
     THEN Emit(FlattenSeq([j \in 1..Block |-> FixedBytes(WTop.e, WTop.v[WTop.i + j - 1])]),
               WPush([WTop EXCEPT !.i = @ + Block], WRest))
     ELSE Silent(WPush(ValueFrame(WTop.e, WTop.v[WTop.i]), WPush([WTop EXCEPT !.i = @ + 1], WRest)))
WriteEncodings ==
  /\ WRunning("w") /\ WTop.t.k = "encset"
  /\ Emit(ListHeader(5, Len(WTop.v)),
          WPush([f |-> "wlist", e |-> [k |-> "i32"], v |-> [i \in 1..Len(WTop.v) |-> FromNat(WTop.v[i], 2)], i |-> 1], WRest))

\* a bare optional value has to be there
WriteOption == /\ WRunning("w") /\ WTop.t.k = "opt"
               /\ IF WTop.v = <<>> THEN WFail("MissingValue") ELSE Silent(WPush(ValueFrame(WTop.t.e, WTop.v[1]), WRest))

EnterStruct ==
  /\ WRunning("w") /\ WTop.t.k = "ref" /\ Kind(WTop.t.n) = "struct"
  /\ Silent(WPush([f |-> "wstruct", n |-> WTop.t.n, v |-> WTop.v, i |-> 1, last |-> 0], WRest))
\* header and, unless the header says it all, the value
Field(t, v, id, last, s) ==
  IF t.k = "bool" THEN Emit(Header(IF v THEN 1 ELSE 2, id, last), s)
  ELSE Emit(Header(TypeCode(t), id, last), WPush(ValueFrame(t, v), s))
WriteField ==
  /\ WRunning("wstruct") /\ WTop.i <= Len(Fields(WTop.n))
  /\ LET fd == Fields(WTop.n)[WTop.i] IN
     IF WTop.v[WTop.i] = <<>> THEN Silent(WPush([WTop EXCEPT !.i = @ + 1], WRest))
     ELSE Field(fd.t, WTop.v[WTop.i][1], fd.id, WTop.last,
                WPush([WTop EXCEPT !.i = @ + 1, !.last = fd.id], WRest))
WriteStop == WRunning("wstruct") /\ WTop.i > Len(Fields(WTop.n)) /\ Emit(<<0>>, WRest)
WriteVariant ==
  /\ WRunning("w") /\ WTop.t.k = "ref" /\ Kind(WTop.t.n) = "union"
  /\ LET fd == Fields(WTop.t.n)[WTop.v[1]] IN
     Field(fd.t, WTop.v[2], fd.id, 0, WPush([f |-> "raw", v |-> <<0>>], WRest))

\* a single field, with the caller keeping the field id context
WriteBareField ==
  /\ WRunning("wfield")
  /\ LET t == WTop.t
         absent == t.k = "opt" /\ WTop.v = <<>>
         t1 == IF t.k = "opt" THEN t.e ELSE t
         v1 == IF t.k = "opt" THEN IF absent THEN WTop.v ELSE WTop.v[1] ELSE WTop.v
     IN IF absent THEN Silent(WRest)
        ELSE Field(t1, v1, WTop.id, WTop.last, WPush([f |-> "setlast", last |-> WTop.id], WRest))
SetLast == WRunning("setlast") /\ out' = out /\ w' = [w EXCEPT !.stk = WRest, !.last = WTop.last,
                                                       !.st = IF WRest = <<>> THEN "ok" ELSE "run"]

WriteToken ==
  /\ WRunning("wtok")
  /\ CASE WTop.t = "byte" -> Emit(<<WTop.v>>, WRest)
       [] WTop.t = "len" -> Emit(Varint(WTop.v), WRest)
       [] OTHER -> Silent(WPush(ValueFrame([k |-> WTop.t], WTop.v), WRest))

WStart(job) ==
  [st |-> "run", v |-> {}, last |-> IF job.op = "wfield" THEN job.last ELSE 0,
   stk |-> << CASE job.op = "write" -> ValueFrame(job.t, job.v)
                [] job.op = "wfield" -> [f |-> "wfield", t |-> job.t, v |-> job.v, id |-> job.id, last |-> job.last]
                [] job.op = "wtok" -> [f |-> "wtok", t |-> job.tok, v |-> job.v] >>]

WriterStep ==
  \/ WriteFixed \/ WriteBinary \/ WritePayload \/ WriteListHeader \/ WriteElement \/ WriteEncodings
  \/ WriteOption \/ EnterStruct \/ WriteField \/ WriteStop \/ WriteVariant \/ WriteBareField \/ SetLast
  \/ WriteToken
=============================================================================
