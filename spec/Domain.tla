------------------------------- MODULE Domain -------------------------------
(* Small sets of values for every type, rich on the top level and poor below.*)
EXTENDS Types, FiniteSets
Bytes(n) == [i \in 1..n |-> (i * 37) % 256]
Letters(n) == [i \in 1..n |-> 97 + (i % 26)]
IntVals(w) == \* around the boundaries of the varint groups and the extremes
  LET S(l) == SignExtend(l, w) IN
  {S(<<0>>), S(<<1>>), S(<<65535>>), S(<<63>>), S(<<64>>), S(<<65472>>), S(<<65471>>),
   S(<<8191>>), S(<<8192>>), S(<<57344>>), S(<<57343>>), S(<<32767>>), S(<<32768>>)}
  \cup (IF w >= 2 THEN {S(<<0, 16>>), S(<<65535, 15>>), S(<<0, 65520>>), S(<<65535, 65519>>),
                        S(<<0, 2048>>), S(<<65535, 2047>>), S(<<65535, 32767>>), S(<<0, 32768>>)} ELSE {})
  \cup (IF w = 4 THEN {S(<<0, 0, 4>>), S(<<65535, 65535, 3>>), S(<<0, 0, 512>>), S(<<0, 0, 0, 1>>), S(<<0, 0, 0, 128>>),
                       S(<<0, 0, 0, 16384>>), S(<<65535, 65535, 65535, 16383>>),
                       <<65535, 65535, 65535, 32767>>, <<0, 0, 0, 32768>>, <<1, 0, 0, 32768>>} ELSE {})
RECURSIVE Vals(_, _)
\* rich = 2: rich values; 1: at most two or three; 0: one
Vals(t, rich) ==
  CASE t.k = "bool" -> IF rich = 0 THEN {TRUE} ELSE {TRUE, FALSE}
    [] t.k = "i8" -> IF rich = 0 THEN {200} ELSE IF rich = 1 THEN {0, 255} ELSE {0, 1, 127, 128, 255}
    [] IsInt(t) -> IF rich = 0 THEN {SignExtend(<<65000>>, IntWidth(t))}
                   ELSE IF rich = 1 THEN {Zero(IntWidth(t)), SignExtend(<<32768>>, IntWidth(t))} ELSE IntVals(IntWidth(t))
    [] t.k = "double" -> IF rich <= 1 THEN {<<1, 2, 3, 4, 5, 6, 7, 8>>}
                         ELSE {<<0,0,0,0,0,0,0,0>>, <<0,0,0,0,0,0,0,128>>, <<1,2,3,4,5,6,7,200>>, <<1,0,0,0,0,0,240,127>>}
    [] t.k = "binary" -> IF rich = 0 THEN {<<>>} ELSE IF rich = 1 THEN {<<>>, <<255, 0>>}
                         ELSE {Bytes(n) : n \in {0, 1, 2, 14, 15, 16, 127, 128, 300}}
    [] t.k = "string" -> IF rich = 0 THEN {<<>>} ELSE IF rich = 1 THEN {<<>>, <<195, 169>>}
                         ELSE {Letters(n) : n \in {0, 1, 2, 15, 16, 127, 128}} \cup {<<226, 130, 172>>, <<240, 159, 152, 128>>}
    [] t.k \in {"list", "set"} ->
         LET e1 == CHOOSE x \in Vals(t.e, 0) : TRUE IN
         IF rich = 0 THEN {<<e1>>}
         ELSE IF rich = 1 THEN {<<>>, <<e1, e1>>}
         ELSE {[i \in 1..n |-> e1] : n \in {0, 14, 15, 16, 127, 128}} \cup {<<x, y>> : x \in Vals(t.e, 1), y \in Vals(t.e, 1)}
    [] t.k = "encset" -> IF rich = 0 THEN {<<3>>} ELSE IF rich = 1 THEN {<<>>, <<0, 30>>}
                         ELSE {<<>>, [i \in 1..14 |-> i], [i \in 1..15 |-> i], [i \in 1..31 |-> i-1]} \cup {<<i>> : i \in 0..30}
    [] t.k = "opt" -> {<<x>> : x \in Vals(t.e, rich)} \cup (IF rich = 2 THEN {<<>>} ELSE {})
    [] t.k = "ref" ->
         LET fs == Fields(t.n)
             sub == IF rich = 0 THEN 0 ELSE rich - 1
         IN IF Kind(t.n) = "union"
            THEN IF rich = 0 THEN {<<1, x>> : x \in Vals(fs[1].t, 0)}
                 ELSE UNION {{<<i, x>> : x \in Vals(fs[i].t, rich)} : i \in 1..Len(fs)}
            ELSE IF rich = 0 THEN {[i \in 1..Len(fs) |-> IF fs[i].req THEN <<CHOOSE x \in Vals(fs[i].t, 0) : TRUE>> ELSE <<>>]}
            ELSE \* every presence combination of the optional fields (up to six), with varying content
                 LET opt == {i \in 1..Len(fs) : ~fs[i].req}
                     combos == IF Cardinality(opt) <= 6 /\ rich = 2 THEN SUBSET opt
                               ELSE {{}, opt} \cup {{i} : i \in opt} \cup {opt \ {i} : i \in opt}
                     first(i) == CHOOSE x \in Vals(fs[i].t, 0) : TRUE
                 IN {[i \in 1..Len(fs) |-> IF i \in opt \ s THEN <<>> ELSE <<first(i)>>] : s \in combos}
                    \cup (IF rich = 2 /\ Len(fs) > 0
                          THEN UNION {{[i \in 1..Len(fs) |-> IF i = j THEN <<x>> ELSE IF i \in opt THEN <<>> ELSE <<first(i)>>]
                                      : x \in Vals(fs[j].t, IF fs[j].t.k = "ref" THEN 1 ELSE 2)} : j \in 1..Len(fs)}
                          ELSE {})
=============================================================================
