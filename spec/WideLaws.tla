------------------------------ MODULE WideLaws ------------------------------
(* The limb formulas of Wide against bit-level definitions, over the values  *)
(* whose limbs come from a set of boundary limbs.                            *)
EXTENDS Wide, FiniteSets, TLC
VARIABLE l
Limbs == {0, 1, 2, 127, 128, 255, 256, 4095, 16383, 16384, 32767, 32768, 65408, 65534, 65535}
Init == l \in [1..4 -> Limbs]
Next == UNCHANGED l
Bit(n, k) == (n \div (2^k)) % 2
BitOf(v, k) == Bit(v[k \div 16 + 1], k % 16)
Tup(f) == [i \in 1..4 |-> f[i]]
GroupsOk == LET g == Groups(l) IN
  \A k \in 0..69 : Bit(g[k \div 7 + 1], k % 7) = (IF k < 64 THEN BitOf(l, k) ELSE 0)
FromGroupsOk == FromGroups(Groups(l)) = Tup(l)
VarintOk == LET b == Varint(l) IN
  /\ VarintEnd(b, 1, Len(b)) = Len(b)
  /\ VarintValue(b, 1, Len(b)) = Tup(l)
  /\ ~VarintJunk(b, 1, Len(b))
  /\ (Len(b) > 1 => b[Len(b)] # 0)
ZigZagOk == LET z == ZigZag(l) IN
  /\ UnZigZag(z) = Tup(l)
  /\ \A k \in 1..63 : BitOf(z, k) = (IF Negative(l) THEN 1 - BitOf(l, k-1) ELSE BitOf(l, k-1))
  /\ BitOf(z, 0) = (IF Negative(l) THEN 1 ELSE 0)
AddOk == /\ Sub(Add(l, <<65535, 1, 0, 32768>>), <<65535, 1, 0, 32768>>) = Tup(l)
         /\ Add(l, <<1, 0, 0, 0>>)[1] = (l[1] + 1) % 65536
I16Ok == /\ FromI16(ToI16(<<l[1]>>)) = <<l[1]>>
         /\ UnZigZag(ZigZag(<<l[1]>>)) = <<l[1]>>
         /\ ToI16(<<l[1]>>) \in -32768..32767
=============================================================================
