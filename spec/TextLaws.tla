------------------------------ MODULE TextLaws ------------------------------
(* The place by place formulation of well-formed UTF-8 against a scan from   *)
(* left to right and against the encodings of the scalar values.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Alphabet, Longest, Structs, SetCode
T == INSTANCE Types
VARIABLE b
Init == b = <<>>
Next == Len(b) < Longest /\ \E x \in Alphabet : b' = Append(b, x)
Spec == Init /\ [][Next]_b

RECURSIVE Scan(_, _)
Scan(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET n == Len(s) - i + 1
           c(k, lo, hi) == s[i+k] >= lo /\ s[i+k] <= hi
           C(k) == c(k, 128, 191)
       IN CASE s[i] <= 127 -> Scan(s, i+1)
            [] s[i] \in 194..223 -> n >= 2 /\ C(1) /\ Scan(s, i+2)
            [] s[i] = 224 -> n >= 3 /\ c(1,160,191) /\ C(2) /\ Scan(s, i+3)
            [] s[i] = 237 -> n >= 3 /\ c(1,128,159) /\ C(2) /\ Scan(s, i+3)
            [] s[i] \in 225..239 -> n >= 3 /\ C(1) /\ C(2) /\ Scan(s, i+3)
            [] s[i] = 240 -> n >= 4 /\ c(1,144,191) /\ C(2) /\ C(3) /\ Scan(s, i+4)
            [] s[i] = 244 -> n >= 4 /\ c(1,128,143) /\ C(2) /\ C(3) /\ Scan(s, i+4)
            [] s[i] \in 241..243 -> n >= 4 /\ C(1) /\ C(2) /\ C(3) /\ Scan(s, i+4)
            [] OTHER -> FALSE
SameAsScan == T!Utf8(b) = Scan(b, 1)

\* one character: exactly the shortest encodings of the Unicode scalar values
Encode(x) ==
  IF x < 128 THEN <<x>>
  ELSE IF x < 2048 THEN <<192 + x \div 64, 128 + (x % 64)>>
  ELSE IF x < 65536 THEN <<224 + x \div 4096, 128 + ((x \div 64) % 64), 128 + (x % 64)>>
  ELSE <<240 + x \div 262144, 128 + ((x \div 4096) % 64), 128 + ((x \div 64) % 64), 128 + (x % 64)>>
Decode(s) ==
  CASE Len(s) = 1 -> s[1]
    [] Len(s) = 2 -> (s[1] - 192) * 64 + s[2] - 128
    [] Len(s) = 3 -> (s[1] - 224) * 4096 + (s[2] - 128) * 64 + s[3] - 128
    [] Len(s) = 4 -> (s[1] - 240) * 262144 + (s[2] - 128) * 4096 + (s[3] - 128) * 64 + s[4] - 128
OneChar == Len(b) \in 1..4 /\ \A i \in 2..Len(b) : T!Cont(b[i])
Scalar(x) == x \in 0..55295 \/ x \in 57344..1114111
ExactlyScalars ==
  OneChar => (T!Utf8(b) <=> Scalar(Decode(b)) /\ Encode(Decode(b)) = b)
=============================================================================
