----------------------------- MODULE SchemaTree -----------------------------
(* The schema tool: prints the tree whose depth-first traversal the flat     *)
(* list of schema elements is.  A machine that walks the list once:          *)
(*   s.i    elements consumed                                                *)
(*   s.stk  open groups, innermost first: children still due                 *)
(*   s.out  what has been printed                                            *)
(*   s.st   "run", "ok", "err"                                               *)
(* An element is a record of its optional attributes, <<>> or <<value>>:     *)
(*   type, len, rep, children, conv, scale, prec (TLC integers)              *)
(*   name (text), logical: [k |-> variant, ...]                              *)
(* Numbers beyond 2^30 are given as +-2^30.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES elems, s
MaxDepth == 127                \* groups within each other

Physical == <<"BOOLEAN", "INT32", "INT64", "INT96", "FLOAT", "DOUBLE", "BYTE_ARRAY", "FIXED_LEN_BYTE_ARRAY">>
Repetition == <<"REQUIRED", "OPTIONAL", "REPEATED">>
Bool(b) == IF b THEN "true" ELSE "false"
TimeOptions(utc, unit) == "(TimeOptions { is_adjusted_to_utc: " \o Bool(utc) \o ", time_unit: " \o unit \o " })"
DecimalText(p, sc) == "Decimal(DecimalOptions { precision: " \o ToString(p) \o ", scale: " \o ToString(sc) \o " })"
DecimalValid(p, sc) == p \in 1..127 /\ sc >= -128 /\ sc <= p

\* annotations: the set of texts that may be shown, "" for none
None == {""}
PrimitiveLogical(l) ==
  CASE l.k = "STRING" -> {"String"} [] l.k = "ENUM" -> {"Enum"} [] l.k = "DATE" -> {"Date"}
    [] l.k = "UNKNOWN" -> {"Unknown"} [] l.k = "JSON" -> {"Json"} [] l.k = "BSON" -> {"Bson"} [] l.k = "UUID" -> {"UUID"}
    [] l.k = "FLOAT16" -> {"Float16"} [] l.k = "GEOMETRY" -> {"Geometry"} [] l.k = "GEOGRAPHY" -> {"Geography"}
    [] l.k = "DECIMAL" -> IF DecimalValid(l.p, l.s) THEN {DecimalText(l.p, l.s)} ELSE None
    [] l.k = "TIME" -> {"Time" \o TimeOptions(l.utc, l.unit)}
    [] l.k = "TIMESTAMP" -> {"Timestamp" \o TimeOptions(l.utc, l.unit)}
    [] l.k = "INTEGER" -> IF l.w > 0 THEN {"Integer(" \o (IF l.signed THEN "i" ELSE "u") \o ToString(l.w) \o ")"} ELSE None
    [] OTHER -> None
PrimitiveConverted(e) ==
  LET c == e.conv[1]
      IntText(x) == {"Integer(" \o x \o ")"}
      Plain == (0 :> "String") @@ (4 :> "Enum") @@ (6 :> "Date") @@ (19 :> "Json") @@ (20 :> "Bson") @@ (21 :> "Interval")
  IN CASE c \in DOMAIN Plain -> {Plain[c]}
       [] c = 7 -> {"Time" \o TimeOptions(TRUE, "Millis")} [] c = 8 -> {"Time" \o TimeOptions(TRUE, "Micros")}
       [] c = 9 -> {"Timestamp" \o TimeOptions(TRUE, "Millis")} [] c = 10 -> {"Timestamp" \o TimeOptions(TRUE, "Micros")}
       [] c = 11 -> IntText("u8") [] c = 12 -> IntText("u16") [] c = 13 -> IntText("u32") [] c = 14 -> IntText("u64")
       [] c = 15 -> IntText("i8") [] c = 16 -> IntText("i16") [] c = 17 -> IntText("i32") [] c = 18 -> IntText("i64")
       [] c = 5 -> IF e.prec = <<>> THEN None
                   ELSE IF e.scale = <<>>      \* a scale of 0 may be assumed
                        THEN None \cup (IF DecimalValid(e.prec[1], 0) THEN {DecimalText(e.prec[1], 0)} ELSE {})
                        ELSE IF DecimalValid(e.prec[1], e.scale[1]) THEN {DecimalText(e.prec[1], e.scale[1])} ELSE None
       [] OTHER -> None
GroupLogical(l) ==
  CASE l.k = "MAP" -> {"Map"} [] l.k = "LIST" -> {"List"}
    [] l.k = "VARIANT" -> {"Variant { specification_version: " \o (IF l.v = <<>> THEN "None" ELSE "Some(" \o ToString(l.v[1]) \o ")") \o " }"}
    [] OTHER -> None
GroupConverted(e) == CASE e.conv[1] = 1 -> {"Map"} [] e.conv[1] = 3 -> {"List"} [] e.conv[1] = 2 -> {"MapKeyValue"} [] OTHER -> None
Else(a, b) == IF a = None THEN b ELSE a
Annotation(e, group) ==
  Else(IF e.logical = <<>> THEN None ELSE IF group THEN GroupLogical(e.logical[1]) ELSE PrimitiveLogical(e.logical[1]),
       IF e.conv = <<>> THEN None ELSE IF group THEN GroupConverted(e) ELSE PrimitiveConverted(e))

-----------------------------------------------------------------------------
RECURSIVE Spaces(_)
Spaces(n) == IF n = 0 THEN "" ELSE "  " \o Spaces(n - 1)
Rep(e) == IF e.rep = <<>> THEN 0 ELSE e.rep[1]
Children(e) == IF e.children = <<>> THEN 0 ELSE e.children[1]
Shown(a) == IF a = "" THEN "" ELSE " (" \o a \o ")"
NewLine == "\n"
SInit == s = [i |-> 0, stk |-> <<>>, out |-> "", st |-> "run"]
SFail == s' = [s EXCEPT !.st = "err"]
Elem == elems[s.i + 1]
Depth == Len(s.stk)
\* a list has a single root
Due == IF s.stk = <<>> THEN s.i = 0 ELSE Head(s.stk) > 0
Count1(stk) == IF stk = <<>> THEN stk ELSE <<Head(stk) - 1>> \o Tail(stk)
Valid(e) == /\ Rep(e) \in 0..2
            /\ s.i = 0 => Rep(e) = 0
            /\ Children(e) >= 0
LeafValid(e) == /\ e.type # <<>> /\ e.type[1] \in 0..7
                /\ e.type[1] = 7 => e.len # <<>> /\ e.len[1] > 0
PhysicalText(e) == Physical[e.type[1] + 1] \o (IF e.type[1] = 7 THEN "(" \o ToString(e.len[1]) \o ")" ELSE "")
Missing == s.st = "run" /\ Due /\ s.i = Len(elems) /\ SFail
Invalid == /\ s.st = "run" /\ Due /\ s.i < Len(elems)
           /\ \/ ~Valid(Elem)
              \/ Valid(Elem) /\ Children(Elem) = 0 /\ ~LeafValid(Elem)
              \/ Valid(Elem) /\ Children(Elem) > 0 /\ Depth >= MaxDepth
           /\ SFail
Leaf(a) ==
  /\ s' = [s EXCEPT !.i = @ + 1, !.stk = Count1(@),
                    !.out = @ \o Spaces(Depth) \o Repetition[Rep(Elem) + 1] \o " " \o PhysicalText(Elem) \o " " \o Elem.name \o Shown(a) \o ";" \o NewLine]
Group(a) ==
  /\ s' = [s EXCEPT !.i = @ + 1, !.stk = <<Children(Elem)>> \o Count1(@),
                    !.out = @ \o Spaces(Depth) \o Repetition[Rep(Elem) + 1] \o " group " \o Elem.name \o Shown(a) \o " {" \o NewLine]
Enter == /\ s.st = "run" /\ Due /\ s.i < Len(elems) /\ Valid(Elem)
         /\ IF Children(Elem) = 0 THEN LeafValid(Elem) /\ \E a \in Annotation(Elem, FALSE) : Leaf(a)
            ELSE Depth < MaxDepth /\ \E a \in Annotation(Elem, TRUE) : Group(a)
Leave == /\ s.st = "run" /\ s.stk # <<>> /\ Head(s.stk) = 0
         /\ s' = [s EXCEPT !.stk = Tail(@), !.out = @ \o Spaces(Depth - 1) \o "}" \o NewLine]
Trailing == s.st = "run" /\ s.stk = <<>> /\ s.i > 0 /\ s.i < Len(elems) /\ SFail
Whole == s.st = "run" /\ s.stk = <<>> /\ s.i > 0 /\ s.i = Len(elems) /\ s' = [s EXCEPT !.st = "ok"]
SchemaStep == Missing \/ Invalid \/ Enter \/ Leave \/ Trailing \/ Whole
\* what is known of an element: outer is what is known of the element around it
NodeAt(e, outer, up, leaves) ==
  [name |-> e.name, rep |-> Rep(e), id |-> e.id,
   \* a value is there only if every optional or repeated element around it is
   def |-> outer.def + (IF Rep(e) # 0 THEN 1 ELSE 0),
   rl |-> outer.rl + (IF Rep(e) = 2 THEN 1 ELSE 0),
   leaf |-> IF Children(e) = 0 THEN leaves ELSE -1,
   up |-> up, n |-> Children(e)]
Nothing == [def |-> 0, rl |-> 0]
=============================================================================
