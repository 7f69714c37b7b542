----------------------------- MODULE ParquetFile ----------------------------
(* Parquet files seen from the outside: where the footer and the page        *)
(* indexes are.  A file is [len |-> size, parts |-> <<[at, b]...>>], zero    *)
(* bytes elsewhere; sizes and offsets are 64-bit values in four limbs.       *)
(* Extracted bytes are [n |-> length, nz |-> {<<index, byte>>}]: their non-  *)
(* zero bytes.                                                               *)
EXTENDS Wide, TLC
N(n) == FromNat(n, 4)
Leq(a, b) == ~Less(b, a)
Count(l) == ToNat(l)         \* sizes below 2^30

FileByte(file, pos) ==
  LET hit == {i \in 1..Len(file.parts) :
                /\ Leq(file.parts[i].at, pos)
                /\ Less(pos, Add(file.parts[i].at, N(Len(file.parts[i].b))))}
  IN IF hit = {} THEN 0
     ELSE LET p == file.parts[CHOOSE i \in hit : TRUE] IN p.b[Count(Sub(pos, p.at)) + 1]
\* the n bytes at start; the parts of a file do not overlap
Extract(file, start, n) ==
  [n |-> Count(n),
   nz |-> UNION {LET p == file.parts[i]
                     idx == {k \in 1..Len(p.b) : /\ p.b[k] # 0
                                                 /\ Leq(start, Add(p.at, N(k - 1)))
                                                 /\ Less(Add(p.at, N(k - 1)), Add(start, n))}
                 IN {<<Count(Sub(Add(p.at, N(k - 1)), start)), p.b[k]>> : k \in idx}
                 : i \in 1..Len(file.parts)}]
SameBytes(x, e) == x.n = e.n /\ {x.nz[i] : i \in 1..Len(x.nz)} = e.nz

-----------------------------------------------------------------------------
\* the footer: <metadata> <length: 4 bytes little endian> P A R 1
Magic == <<80, 65, 82, 49>>
Trail(file, k) == FileByte(file, Sub(file.len, N(9 - k)))     \* k in 1..8
HasTail(file) == Leq(N(8), file.len)
MagicOk(file) == \A k \in 1..4 : Trail(file, 4 + k) = Magic[k]
MetaLen(file) == <<Trail(file, 1) + 256 * Trail(file, 2), Trail(file, 3) + 256 * Trail(file, 4), 0, 0>>
FooterValid(file) == /\ HasTail(file) /\ MagicOk(file)
                     /\ Leq(MetaLen(file), Sub(file.len, N(8)))
Footer(file) == Extract(file, Sub(Sub(file.len, N(8)), MetaLen(file)), MetaLen(file))

-----------------------------------------------------------------------------
\* Page indexes.  A column chunk declares up to two extents [o: 4 limbs, l: 2 limbs, signed];
\* only chunks that declare all four numbers count.  A chunk is [oo, ol, co, cl], each <<>> or <<v>>.
Complete(ch) == ch.oo # <<>> /\ ch.ol # <<>> /\ ch.co # <<>> /\ ch.cl # <<>>
Extents(ch) == <<[o |-> ch.oo[1], l |-> SignExtend(ch.ol[1], 4)], [o |-> ch.co[1], l |-> SignExtend(ch.cl[1], 4)]>>
NegativeExtent(x) == Negative(x.o) \/ Negative(x.l)
Declared(chunks) == UNION {IF Complete(chunks[i]) THEN {Extents(chunks[i])[1], Extents(chunks[i])[2]} ELSE {}
                           : i \in 1..Len(chunks)}
BadDeclaration(chunks) == \E x \in Declared(chunks) : NegativeExtent(x)
End(x) == Add(x.o, x.l)
\* smallest range containing a set of extents
Hull(xs) == <<(CHOOSE x \in xs : \A y \in xs : Leq(x.o, y.o)).o, End(CHOOSE x \in xs : \A y \in xs : Leq(End(y), End(x)))>>
\* whether the position of an empty extent matters is left open
Ranges(chunks) ==
  LET all == Declared(chunks)
      some == {x \in all : x.l # Zero(4)}
      h == IF all = {} THEN <<>> ELSE Hull(all)
  IN (IF some = {} THEN {<<>>} ELSE {Hull(some)})
     \cup (IF all = {} \/ ~Less(h[1], h[2]) THEN {} ELSE {h})
=============================================================================
