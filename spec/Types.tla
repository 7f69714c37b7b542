------------------------------- MODULE Types --------------------------------
(* Declarable types.  A type is a record:                                    *)
(*   [k |-> "bool" | "i8" | "i16" | "i32" | "i64" | "enum" | "double"        *)
(*          | "binary" | "string" | "encset"]                                *)
(*   [k |-> "list" | "set" | "opt" , e |-> element type]                     *)
(*   [k |-> "ref", n |-> name of a struct or union]                          *)
(* Structs maps names to [kind |-> "struct" | "union",                       *)
(*                        fields |-> <<[id, req, t, name]...>>].             *)
(* Values: bool: BOOLEAN; i8: 0..255 (two's complement); i16/i32/i64/enum:   *)
(* 1/2/4/2 limbs; double: its 8 bytes; binary, string: bytes; list, set:     *)
(* sequence; opt: <<>> or <<v>>; struct: one <<>> or <<v>> per field;        *)
(* union: <<index of the variant, v>>; encset: ascending sequence of numbers.*)
EXTENDS Wide, TLC
CONSTANTS Structs,   \* see above
          SetCode    \* type code of sets: 10 in the protocol; the implementation maps
                     \* sets to Vec and uses the code of lists, 9 (known finding)

Kind(n) == Structs[n].kind
Fields(n) == Structs[n].fields

TypeCode(t) == CASE t.k = "bool"   -> 2      \* as element; fields carry 1 = true, 2 = false
                 [] t.k = "i8"     -> 3
                 [] t.k = "i16"    -> 4
                 [] t.k \in {"i32", "enum"} -> 5
                 [] t.k = "i64"    -> 6
                 [] t.k = "double" -> 7
                 [] t.k \in {"binary", "string"} -> 8
                 [] t.k \in {"list", "encset"} -> 9
                 [] t.k = "set"    -> SetCode
                 [] t.k = "ref"    -> 12
RECURSIVE ElemCode(_)
ElemCode(t) == IF t.k = "opt" THEN ElemCode(t.e) ELSE TypeCode(t)
CodeMatches(t, wt) == IF t.k = "bool" THEN wt \in {1, 2} ELSE wt = TypeCode(t)
RECURSIVE ElemCodeMatches(_, _)
ElemCodeMatches(t, wt) == IF t.k = "opt" THEN ElemCodeMatches(t.e, wt) ELSE CodeMatches(t, wt)
Codes == 1..12
IntWidth(t) == CASE t.k = "i16" -> 1 [] t.k \in {"i32", "enum"} -> 2 [] t.k = "i64" -> 4
IsInt(t) == t.k \in {"i16", "i32", "enum", "i64"}
IsScalar(t) == t.k \in {"bool", "i8", "i16", "i32", "enum", "i64", "double", "binary", "string"}

RECURSIVE Default(_)
Default(t) ==
  CASE t.k = "bool" -> FALSE
    [] t.k = "i8" -> 0
    [] IsInt(t) -> Zero(IntWidth(t))
    [] t.k = "double" -> <<0, 0, 0, 0, 0, 0, 0, 0>>
    [] t.k = "ref" ->
         IF Kind(t.n) = "union" THEN <<1, Default(Fields(t.n)[1].t)>>
         ELSE [i \in 1..Len(Fields(t.n)) |->
                 IF Fields(t.n)[i].req THEN <<Default(Fields(t.n)[i].t)>> ELSE <<>>]
    [] OTHER -> <<>>

FieldIndex(n, id) ==
  LET fs == Fields(n) IN
  IF \E i \in 1..Len(fs) : fs[i].id = id
  THEN CHOOSE i \in 1..Len(fs) : fs[i].id = id ELSE 0

-----------------------------------------------------------------------------
\* well-formed UTF-8 (Unicode table 3-7), place by place: every leading byte
\* has its continuation bytes, every continuation byte has its leading byte
Follow(x) == CASE x <= 127 -> 0 [] x \in 194..223 -> 1 [] x \in 224..239 -> 2 [] x \in 240..244 -> 3 [] OTHER -> -1
Second(x) == CASE x = 224 -> 160..191 [] x = 237 -> 128..159 [] x = 240 -> 144..191 [] x = 244 -> 128..143 [] OTHER -> 128..191
Cont(x) == x >= 128 /\ x <= 191
Utf8(b) ==
  \A i \in 1..Len(b) :
    IF Cont(b[i])
    THEN \E k \in 1..3 : k < i /\ Follow(b[i-k]) >= k /\ \A j \in 1..k-1 : Cont(b[i-j])
    ELSE LET f == Follow(b[i]) IN
         /\ f >= 0 /\ i + f <= Len(b)
         /\ f > 0 => b[i+1] \in Second(b[i])
         /\ \A k \in 2..f : Cont(b[i+k])
====
