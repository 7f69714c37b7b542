-------------------------------- MODULE Wide --------------------------------
(* Integers of 8..64 bits as little-endian tuples of 16-bit limbs (TLC's own *)
(* integers have 32 bits), LEB128 varints and the zigzag mapping on them.    *)
EXTENDS Integers, Sequences

Zero(w) == [i \in 1..w |-> 0]
\* n is a natural below 2^31
FromNat(n, w) == [i \in 1..w |-> CASE i = 1 -> n % 65536 [] i = 2 -> n \div 65536 [] OTHER -> 0]
\* naturals below 2^30 are represented exactly, anything larger as 2^30
Big == 1073741824
ToNat(l) == IF \E i \in 3..Len(l) : l[i] # 0 THEN Big
            ELSE IF Len(l) = 1 THEN l[1]
            ELSE IF l[2] >= 16384 THEN Big ELSE l[2] * 65536 + l[1]
Truncate(l, w) == SubSeq(l, 1, w)
Fits(l, w) == \A i \in (w+1)..Len(l) : l[i] = 0
Negative(l) == l[Len(l)] >= 32768

\* comparison and arithmetic of non-negative values of equal width (mod 2^(16w))
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i = 0 THEN FALSE
                     ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessFrom(a, b, i-1)
Less(a, b) == LessFrom(a, b, Len(a))
Min(a, b) == IF Less(b, a) THEN b ELSE a
Max(a, b) == IF Less(a, b) THEN b ELSE a
RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, i, carry, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET s == a[i] + b[i] + carry
       IN AddFrom(a, b, i+1, s \div 65536, Append(acc, s % 65536))
Add(a, b) == AddFrom(a, b, 1, 0, <<>>)
RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(a, b, i, borrow, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET s == a[i] - b[i] - borrow
       IN SubFrom(a, b, i+1, IF s < 0 THEN 1 ELSE 0, Append(acc, s % 65536))
Sub(a, b) == SubFrom(a, b, 1, 0, <<>>)
SignExtend(l, w) == [i \in 1..w |-> IF i <= Len(l) THEN l[i] ELSE IF Negative(l) THEN 65535 ELSE 0]

-----------------------------------------------------------------------------
\* zigzag: n -> 2n for n >= 0, -2n-1 for n < 0, on two's complement limbs
ZigZag(l) ==
  LET w == Len(l)
      shl == [i \in 1..w |-> (l[i] % 32768) * 2 + (IF i = 1 THEN 0 ELSE l[i-1] \div 32768)]
  IN IF Negative(l) THEN [i \in 1..w |-> 65535 - shl[i]] ELSE shl
UnZigZag(l) ==
  LET w == Len(l)
      shr == [i \in 1..w |-> l[i] \div 2 + (IF i = w THEN 0 ELSE (l[i+1] % 2) * 32768)]
  IN IF l[1] % 2 = 1 THEN [i \in 1..w |-> 65535 - shr[i]] ELSE shr
\* 16 bit signed integers as TLC integers
ToI16(l) == IF l[1] >= 32768 THEN l[1] - 65536 ELSE l[1]
FromI16(n) == <<n % 65536>>
WrapI16(n) == ((n + 32768) % 65536) - 32768
WrapAdd16(a, b) == WrapI16(a + b)

-----------------------------------------------------------------------------
\* The ten 7-bit groups of a 64-bit value, least significant first
Groups(l0) ==
  LET l == [i \in 1..4 |-> IF i <= Len(l0) THEN l0[i] ELSE 0]
  IN << l[1] % 128, (l[1] \div 128) % 128,
        l[1] \div 16384 + (l[2] % 32) * 4, (l[2] \div 32) % 128,
        l[2] \div 4096 + (l[3] % 8) * 16, (l[3] \div 8) % 128,
        l[3] \div 1024 + (l[4] % 2) * 64, (l[4] \div 2) % 128,
        (l[4] \div 256) % 128, l[4] \div 32768 >>
FromGroups(g) ==
  << g[1] + g[2] * 128 + (g[3] % 4) * 16384,
     g[3] \div 4 + g[4] * 32 + (g[5] % 16) * 4096,
     g[5] \div 16 + g[6] * 8 + (g[7] % 64) * 1024,
     g[7] \div 64 + g[8] * 2 + g[9] * 256 + (g[10] % 2) * 32768 >>
\* the minimal varint encoding
LastGroup(g) == CHOOSE k \in 1..10 : /\ \A j \in (k+1)..10 : g[j] = 0
                                     /\ (k = 1 \/ g[k] # 0)
Varint(l) == LET g == Groups(l)
                 k == LastGroup(g)
             IN [i \in 1..k |-> IF i < k THEN g[i] + 128 ELSE g[i]]
VarintNat(n) == Varint(FromNat(n, 2))
VarintSigned(l) == Varint(ZigZag(l))

\* index of the last byte of the varint starting at index p, 0 if it does not end by lim
RECURSIVE VarintEnd(_, _, _)
VarintEnd(bs, p, lim) ==
  IF p > lim THEN 0
  ELSE LET top == IF p + 31 < lim THEN p + 31 ELSE lim
       IN IF \E i \in p..top : bs[i] < 128
          THEN CHOOSE q \in p..top : bs[q] < 128 /\ \A i \in p..(q-1) : bs[i] >= 128
          ELSE VarintEnd(bs, top+1, lim)
\* value of the varint in bs[p..q]
VarintValue(bs, p, q) ==
  FromGroups([i \in 1..10 |-> IF p + i - 1 <= q THEN bs[p + i - 1] % 128 ELSE 0])
\* it carries bits beyond the 64th: zero padding is harmless, anything else has no defined value
VarintJunk(bs, p, q) ==
  \/ q - p >= 9 /\ (bs[p+9] % 128) > 1
  \/ \E i \in (p+10)..q : bs[i] % 128 # 0
=============================================================================
