------------------------------- MODULE Reader -------------------------------
(* The decoder as a machine.  The source delivers bytes (inp grows) until it *)
(* ends (closed), at which point every further request fails with the error  *)
(* eof (end of file, or an I/O fault).  The machine m consumes tokens:                       *)
(*   m.pos  bytes consumed so far                                            *)
(*   m.stk  open containers, innermost first                                 *)
(*   m.st   "run", "ok", "err", or "unspec" (something the protocol gives no *)
(*          meaning was consumed, such as a number with bits beyond its      *)
(*          width: any outcome but a crash is fine)                          *)
(*   m.v    the decoded value when ok, the set of permitted errors when err  *)
(* How the source splits its deliveries is invisible: only the bytes matter. *)
EXTENDS Types, SequencesExt
CONSTANTS MaxBinary, MaxCollection,  \* size limits
          Block,               \* so many elements are taken at a time where many are due
          MinSkipDepth               \* skipping at least this many nested containers must work

VARIABLES inp, closed, eof, m

\* ---------------------------------------------------------------- tokens --
\* Each token operator looks at inp from position p (number of bytes already consumed) and
\* returns [r |-> "ok", n |-> bytes used, v |-> value], [r |-> "more"] or [r |-> "err", e |-> error]
OkTok(n, v) == [r |-> "ok", n |-> n, v |-> v]
More == [r |-> "more"]
ErrTok(n, es) == [r |-> "err", n |-> n, es |-> es]  \* es: permitted errors, after n bytes
UnspecTok == [r |-> "unspec"]

ByteTok(p) == IF p < Len(inp) THEN OkTok(1, inp[p+1]) ELSE More

\* unsigned 64-bit varint; v.junk if it has no defined value
UlebTok(p) ==
  LET q == VarintEnd(inp, p+1, Len(inp)) IN
  IF q = 0 THEN More
  ELSE OkTok(q - p, [l |-> VarintValue(inp, p+1, q), junk |-> VarintJunk(inp, p+1, q)])

IntTok(p, w) ==
  LET u == UlebTok(p) IN
  IF u.r # "ok" THEN u
  ELSE IF u.v.junk \/ ~Fits(u.v.l, w) THEN UnspecTok
  ELSE OkTok(u.n, UnZigZag(Truncate(u.v.l, w)))

FixedTok(p, n) == IF p + n <= Len(inp) THEN OkTok(n, SubSeq(inp, p+1, p+n)) ELSE More

BinaryTok(p) ==
  LET u == UlebTok(p) IN
  IF u.r # "ok" THEN u
  ELSE IF u.v.junk THEN UnspecTok
  ELSE LET len == ToNat(u.v.l) IN
       IF len > MaxBinary THEN ErrTok(u.n, {"InvalidBinaryLen"})
       ELSE IF p + u.n + len <= Len(inp)
            THEN OkTok(u.n + len, SubSeq(inp, p+u.n+1, p+u.n+len))
            ELSE More

StringTok(p) ==
  LET b == BinaryTok(p) IN
  IF b.r = "ok" /\ ~Utf8(b.v) THEN ErrTok(b.n, {"InvalidString"}) ELSE b

\* values outside of field headers (elements, bare values, payloads of fields)
ScalarTok(t, p) ==
  CASE t.k = "bool" -> LET b == ByteTok(p) IN IF b.r = "ok" THEN IF b.v \in 0..2 THEN OkTok(1, b.v = 1) ELSE UnspecTok ELSE b
    [] t.k = "i8" -> ByteTok(p)
    [] IsInt(t) -> IntTok(p, IntWidth(t))
    [] t.k = "double" -> FixedTok(p, 8)
    [] t.k = "binary" -> BinaryTok(p)
    [] t.k = "string" -> StringTok(p)

\* a field header: v = [wt, id]; type nibble 0 is the stop marker
HeaderTok(p, last) ==
  LET b == ByteTok(p) IN
  IF b.r # "ok" THEN b
  ELSE LET wt == b.v % 16
           delta == b.v \div 16
       IN IF b.v = 0 THEN OkTok(1, [wt |-> 0, id |-> last])
          ELSE IF delta # 0 THEN OkTok(1, [wt |-> wt, id |-> WrapAdd16(last, delta)])
          ELSE LET i == IntTok(p+1, 1) IN
               IF i.r # "ok" THEN i
               ELSE OkTok(1 + i.n, [wt |-> wt, id |-> ToI16(i.v)])

\* a list or set header: v = [len, et]
ListTok(p) ==
  LET b == ByteTok(p) IN
  IF b.r # "ok" THEN b
  ELSE LET et == b.v % 16
           short == b.v \div 16
       IN IF short # 15
          THEN IF short > MaxCollection THEN ErrTok(1, {"InvalidCollectionLen"})
               ELSE OkTok(1, [len |-> short, et |-> et])
          ELSE LET u == UlebTok(p+1) IN
               IF u.r # "ok" THEN u
               ELSE IF u.v.junk THEN UnspecTok
               ELSE IF ToNat(u.v.l) > MaxCollection THEN ErrTok(1 + u.n, {"InvalidCollectionLen"})
               ELSE OkTok(1 + u.n, [len |-> ToNat(u.v.l), et |-> et])

\* a map header: v = [len, kt, vt]; an empty map has no type byte
MapTok(p) ==
  LET u == UlebTok(p) IN
  IF u.r # "ok" THEN u
  ELSE IF u.v.junk THEN UnspecTok
  ELSE IF ToNat(u.v.l) = 0 THEN OkTok(u.n, [len |-> 0, kt |-> 0, vt |-> 0])
  ELSE LET b == ByteTok(p + u.n)
           long == ToNat(u.v.l) > MaxCollection
       IN
       IF b.r # "ok" THEN IF long /\ closed THEN ErrTok(u.n, {"InvalidCollectionLen", eof}) ELSE b
       ELSE IF long THEN ErrTok(u.n + 1, {"InvalidCollectionLen"})
       ELSE OkTok(u.n + 1, [len |-> ToNat(u.v.l), kt |-> b.v \div 16, vt |-> b.v % 16])

\* --------------------------------------------------------------- machine --
Machine(p, stk) == [pos |-> p, stk |-> stk, st |-> "run", v |-> <<>>]
Top == Head(m.stk)
Rest == Tail(m.stk)
Running(f) == m.st = "run" /\ m.stk # <<>> /\ Top.f = f
Push(fr, s) == <<fr>> \o s
Go(n, s) == m' = [m EXCEPT !.pos = @ + n, !.stk = s]
FailAt(n, es) == m' = [m EXCEPT !.st = "err", !.pos = @ + n, !.v = es]
Fail(e) == FailAt(0, {e})
FailOn(tok) == \/ tok.r = "err" /\ FailAt(tok.n, tok.es)
               \/ tok.r = "unspec" /\ m' = [m EXCEPT !.st = "unspec"]
               \/ tok.r = "more" /\ closed /\ Fail(eof)

\* frames: all of them are records with field f
ValFrame(t, old) == [f |-> "val", t |-> t, old |-> old]
StructFrame(n, old) == [f |-> "struct", n |-> n, last |-> 0, cur |-> 0, vals |-> old,
                        seen |-> [i \in 1..Len(old) |-> FALSE]]
UnionFrame(n) == [f |-> "union", n |-> n, cur |-> 0, v |-> <<>>, stop |-> FALSE]
ListFrame(e, len) == [f |-> "list", e |-> e, rem |-> len, acc |-> <<>>]
EncFrame(len) == [f |-> "enc", rem |-> len, acc |-> {}]
SkipFrame(wt, coll, dep) == [f |-> "skip", wt |-> wt, coll |-> coll, dep |-> dep]

\* hand a finished value to the innermost open container, consuming n more bytes
Deliver(n, v, s) ==
  IF s = <<>> THEN m' = [m EXCEPT !.pos = @ + n, !.stk = <<>>, !.st = "ok", !.v = v]
  ELSE LET p == Head(s)
           q == CASE p.f = "struct" -> [p EXCEPT !.vals[p.cur] = <<v>>, !.cur = 0]
                  [] p.f = "union"  -> [p EXCEPT !.v = v, !.stop = TRUE]
                  [] p.f = "list"   -> [p EXCEPT !.acc = Append(@, v), !.rem = @ - 1]
                  [] p.f = "opt"    -> [p EXCEPT !.v = <<v>>]
       IN Go(n, Push(q, Tail(s)))
\* a finished skip is of no consequence to the parent
SkipDone(n) == IF Rest = <<>> THEN m' = [m EXCEPT !.pos = @ + n, !.stk = <<>>, !.st = "ok"]
               ELSE Go(n, Rest)

\* a value of type t (bare or as list element) is due; old is what the destination holds
ReadScalar ==
  /\ Running("val") /\ IsScalar(Top.t)
  /\ LET tok == ScalarTok(Top.t, m.pos) IN
     IF tok.r = "ok" THEN Deliver(tok.n, tok.v, Rest) ELSE FailOn(tok)

EnterContainer ==
  /\ Running("val") /\ Top.t.k = "ref"
  /\ Go(0, Push(IF Kind(Top.t.n) = "struct" THEN StructFrame(Top.t.n, Top.old)
                ELSE UnionFrame(Top.t.n), Rest))

EnterOption ==
  /\ Running("val") /\ Top.t.k = "opt"
  /\ IF Top.old # <<>> THEN Fail("DuplicateField")
     ELSE Go(0, Push(ValFrame(Top.t.e, Default(Top.t.e)), Push([f |-> "opt", v |-> <<>>], Rest)))
LeaveOption == Running("opt") /\ Deliver(0, Top.v, Rest)

ReadListHeader ==
  /\ Running("val") /\ Top.t.k \in {"list", "set", "encset"}
  /\ LET tok == ListTok(m.pos)
         e == IF Top.t.k = "encset" THEN [k |-> "i32"] ELSE Top.t.e
     IN IF tok.r # "ok" THEN FailOn(tok)
        ELSE IF ~ElemCodeMatches(e, tok.v.et) THEN Fail("InvalidType")
        ELSE Go(tok.n, Push(IF Top.t.k = "encset" THEN EncFrame(tok.v.len)
                            ELSE ListFrame(e, tok.v.len), Rest))

\* As long as many elements are due, Block of them are taken in one step if they are all there:
\* the same as that many single steps, which are only needed where something goes wrong.
None == [ok |-> FALSE]
Several(Tok(_), p) ==
  FoldLeft(LAMBDA a, i : IF ~a.ok THEN a
                         ELSE LET t == Tok(p + a.n) IN
                              IF t.r = "ok" THEN [ok |-> TRUE, n |-> a.n + t.n, v |-> Append(a.v, t.v)] ELSE [a EXCEPT !.ok = FALSE],
           [ok |-> TRUE, n |-> 0, v |-> <<>>], [i \in 1..Block |-> i])

\* scalar elements are read in place, others by a nested frame
ReadElement ==
  /\ Running("list") /\ Top.rem > 0
  /\ LET ScalarAt(p) == ScalarTok(Top.e, p)
         b == IF IsScalar(Top.e) /\ Top.rem >= 2 * Block THEN Several(ScalarAt, m.pos) ELSE None
     IN IF b.ok THEN Go(b.n, Push([Top EXCEPT !.acc = @ \o b.v, !.rem = @ - Block], Rest))
        ELSE IF IsScalar(Top.e)
        THEN LET tok == ScalarTok(Top.e, m.pos) IN
             IF tok.r = "ok" THEN Deliver(tok.n, tok.v, m.stk) ELSE FailOn(tok)
        ELSE Go(0, Push(ValFrame(Top.e, Default(Top.e)), m.stk))
EndList == Running("list") /\ Top.rem = 0 /\ Deliver(0, Top.acc, Rest)

RECURSIVE Ascending(_)
Ascending(s) == IF s = {} THEN <<>>
                ELSE LET x == CHOOSE x \in s : \A y \in s : x <= y
                     IN <<x>> \o Ascending(s \ {x})
ReadEncoding ==
  /\ Running("enc") /\ Top.rem > 0
  /\ LET tok == IntTok(m.pos, 2) IN
     IF tok.r # "ok" THEN FailOn(tok)
     ELSE IF Negative(tok.v) \/ ToNat(tok.v) > 30 THEN Fail("InvalidNumber")
     ELSE Go(tok.n, Push([Top EXCEPT !.acc = @ \cup {ToNat(tok.v)}, !.rem = @ - 1], Rest))
EndEncodings == Running("enc") /\ Top.rem = 0 /\ Deliver(0, Ascending(Top.acc), Rest)

\* the payload of a field whose header announced type wt; bools have none
FieldValue(n, t, wt, old, s) ==
  IF ~CodeMatches(t, wt) THEN Fail("InvalidType")
  ELSE IF t.k = "bool" THEN Deliver(n, wt = 1, s)
  ELSE Go(n, Push(ValFrame(t, old), s))

MissingField(fr) ==
  LET fs == Fields(fr.n)
      miss == {i \in 1..Len(fs) : fs[i].req /\ ~fr.seen[i]}
  IN IF miss = {} THEN 0 ELSE CHOOSE i \in miss : \A j \in miss : i <= j

ReadField ==
  /\ Running("struct") /\ Top.cur = 0
  /\ LET tok == HeaderTok(m.pos, Top.last) IN
     IF tok.r # "ok" THEN FailOn(tok)
     ELSE IF tok.v.wt = 0
     THEN LET i == MissingField(Top) IN
          IF i = 0 THEN Deliver(tok.n, Top.vals, Rest)
          ELSE Fail("MissingField:" \o Top.n \o "::" \o Fields(Top.n)[i].name)
     ELSE LET i == FieldIndex(Top.n, tok.v.id) IN
          IF i = 0
          THEN Go(tok.n, Push(SkipFrame(tok.v.wt, FALSE, 0),
                              Push([Top EXCEPT !.last = tok.v.id], Rest)))
          ELSE LET fd == Fields(Top.n)[i]
                   s == Push([Top EXCEPT !.last = tok.v.id, !.cur = i, !.seen[i] = TRUE], Rest)
               IN IF ~fd.req /\ Top.vals[i] # <<>>
                  THEN FailAt(0, {"DuplicateField"} \cup
                                 IF CodeMatches(fd.t, tok.v.wt) THEN {} ELSE {"InvalidType"})
                  ELSE FieldValue(tok.n, fd.t, tok.v.wt,
                                  IF Top.vals[i] # <<>> THEN Top.vals[i][1] ELSE Default(fd.t), s)

ReadVariant ==
  /\ Running("union") /\ ~Top.stop
  /\ LET tok == HeaderTok(m.pos, 0) IN
     IF tok.r # "ok" THEN FailOn(tok)
     ELSE IF tok.v.wt = 0 THEN Fail("InvalidType")
     ELSE LET i == FieldIndex(Top.n, tok.v.id) IN
          IF i = 0 THEN Fail("MissingField:" \o Top.n)
          ELSE FieldValue(tok.n, Fields(Top.n)[i].t, tok.v.wt, Default(Fields(Top.n)[i].t),
                          Push([Top EXCEPT !.cur = i], Rest))
ReadUnionStop ==
  /\ Running("union") /\ Top.stop
  /\ LET tok == ByteTok(m.pos) IN
     IF tok.r # "ok" THEN FailOn(tok)
     ELSE IF tok.v # 0 THEN Fail("MissingStop")
     ELSE Deliver(1, <<Top.cur, Top.v>>, Rest)

\* a bare field payload with an announced type (fill_thrift_field)
ReadAnnounced ==
  /\ Running("announced")
  /\ IF Top.t.k = "opt"
     THEN IF Top.old # <<>> THEN Fail("DuplicateField")
          ELSE FieldValue(0, Top.t.e, Top.wt, Default(Top.t.e), Push([f |-> "opt", v |-> <<>>], Rest))
     ELSE FieldValue(0, Top.t, Top.wt, Top.old, Rest)

\* -------------------------------------------------------------- skipping --
SkipBytes(tok) == IF tok.r = "ok" THEN SkipDone(tok.n) ELSE FailOn(tok)
\* the extent of a value without parts
PlainTok(wt, coll, p) ==
  CASE wt \in {1, 2} -> IF coll THEN ByteTok(p) ELSE OkTok(0, 0)
    [] wt = 3 -> ByteTok(p)
    [] wt \in 4..6 -> UlebTok(p)
    [] wt = 7 -> FixedTok(p, 8)
    [] wt = 8 -> BinaryTok(p)
SkipScalar == Running("skip") /\ Top.wt \in 1..8 /\ SkipBytes(PlainTok(Top.wt, Top.coll, m.pos))
SkipInvalid == Running("skip") /\ Top.wt \notin Codes /\ Fail("InvalidType")

SkipListHeader ==
  /\ Running("skip") /\ Top.wt \in {9, 10}
  /\ LET tok == ListTok(m.pos) IN
     IF tok.r # "ok" THEN FailOn(tok)
     ELSE IF tok.v.et \notin Codes THEN Fail("InvalidType")
     ELSE Go(tok.n, Push([f |-> "sklist", et |-> tok.v.et, rem |-> tok.v.len, dep |-> Top.dep + 1], Rest))
SkipElement ==
  /\ Running("sklist") /\ Top.rem > 0
  /\ LET PlainAt(p) == LET t == PlainTok(Top.et, TRUE, p) IN IF t.r = "ok" THEN OkTok(t.n, 0) ELSE t
         b == IF Top.et \in 1..8 /\ Top.rem >= 2 * Block THEN Several(PlainAt, m.pos) ELSE None
     IN IF b.ok THEN Go(b.n, Push([Top EXCEPT !.rem = @ - Block], Rest))
        ELSE Go(0, Push(SkipFrame(Top.et, TRUE, Top.dep), Push([Top EXCEPT !.rem = @ - 1], Rest)))
SkipListEnd == Running("sklist") /\ Top.rem = 0 /\ SkipDone(0)

SkipMapHeader ==
  /\ Running("skip") /\ Top.wt = 11
  /\ LET tok == MapTok(m.pos) IN
     IF tok.r # "ok" THEN FailOn(tok)
     ELSE Go(tok.n, Push([f |-> "skmap", kt |-> tok.v.kt, vt |-> tok.v.vt, rem |-> tok.v.len,
                          key |-> TRUE, dep |-> Top.dep + 1], Rest))
SkipEntry ==
  /\ Running("skmap") /\ Top.rem > 0
  /\ IF Top.key
     THEN Go(0, Push(SkipFrame(Top.kt, TRUE, Top.dep), Push([Top EXCEPT !.key = FALSE], Rest)))
     ELSE Go(0, Push(SkipFrame(Top.vt, TRUE, Top.dep), Push([Top EXCEPT !.key = TRUE, !.rem = @ - 1], Rest)))
SkipMapEnd == Running("skmap") /\ Top.rem = 0 /\ SkipDone(0)

SkipStruct ==
  /\ Running("skip") /\ Top.wt = 12
  /\ Go(0, Push([f |-> "skstruct", last |-> 0, dep |-> Top.dep + 1], Rest))
SkipField ==
  /\ Running("skstruct")
  /\ LET tok == HeaderTok(m.pos, Top.last) IN
     IF tok.r # "ok" THEN FailOn(tok)
     ELSE IF tok.v.wt = 0 THEN SkipDone(tok.n)
     ELSE Go(tok.n, Push(SkipFrame(tok.v.wt, FALSE, Top.dep),
                         Push([Top EXCEPT !.last = tok.v.id], Rest)))

\* ------------------------------------------------- single protocol tokens --
ReadToken ==
  /\ Running("token")
  /\ LET tok == CASE Top.t = "byte" -> ByteTok(m.pos)
                  [] Top.t = "len" -> LET u == UlebTok(m.pos) IN
                        IF u.r # "ok" THEN u ELSE IF u.v.junk THEN UnspecTok ELSE OkTok(u.n, u.v.l)
                  [] Top.t = "header" -> LET h == HeaderTok(m.pos, Top.last) IN
                        IF h.r # "ok" THEN h ELSE OkTok(h.n, <<h.v.wt, FromI16(h.v.id)[1]>>)
                  [] Top.t = "list" -> LET h == ListTok(m.pos) IN
                        IF h.r # "ok" THEN h ELSE OkTok(h.n, <<h.v.len, h.v.et>>)
                  [] Top.t = "map" -> LET h == MapTok(m.pos) IN
                        IF h.r # "ok" THEN h ELSE OkTok(h.n, <<h.v.len, h.v.kt, h.v.vt>>)
                  [] Top.t = "skipint" -> LET u == UlebTok(m.pos) IN
                        IF u.r # "ok" THEN u ELSE OkTok(u.n, <<>>)
                  [] Top.t = "skipbin" -> LET b == BinaryTok(m.pos) IN
                        IF b.r # "ok" THEN b ELSE OkTok(b.n, <<>>)
     IN IF tok.r = "ok" THEN Deliver(tok.n, tok.v, Rest) ELSE FailOn(tok)

\* ------------------------------------------------- permitted resource errors
\* an implementation may refuse to nest skips deeper than MinSkipDepth
SkipTooDeep == Running("skip") /\ Top.wt \in 9..12 /\ Top.dep >= MinSkipDepth /\ Fail("NestingTooDeep")
\* and may fail to reserve memory for a long list
ReserveFails == Running("list") /\ Top.acc = <<>> /\ Top.rem >= 65536 /\ Fail("ReserveError")
\* filling a reference-counted value that somebody else holds may be refused
SharedRefused == m.st = "run" /\ Fail("DuplicateField")

ReaderStep ==
  \/ ReadScalar \/ EnterContainer \/ EnterOption \/ LeaveOption \/ ReadListHeader \/ ReadElement
  \/ EndList \/ ReadEncoding \/ EndEncodings \/ ReadField \/ ReadVariant \/ ReadUnionStop
  \/ ReadAnnounced \/ SkipScalar \/ SkipInvalid \/ SkipListHeader \/ SkipElement \/ SkipListEnd
  \/ SkipMapHeader \/ SkipEntry \/ SkipMapEnd \/ SkipStruct \/ SkipField \/ ReadToken

\* ------------------------------------------------------------------- jobs --
\* what a caller asks for; job.prior is the value of the destination, job.wt a wire type
Start(job, p) ==
  Machine(p, << CASE job.op = "read" -> ValFrame(job.t, Default(job.t))
                  [] job.op = "fill" -> ValFrame(job.t, job.prior)
                  [] job.op = "ffield" -> [f |-> "announced", t |-> job.t, wt |-> job.wt, old |-> job.prior]
                  [] job.op = "skip" -> SkipFrame(job.wt, FALSE, 0)
                  [] job.op = "tok" -> [f |-> "token", t |-> job.tok, last |-> job.last] >>)
=============================================================================
