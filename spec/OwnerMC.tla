------------------------------- MODULE OwnerMC ------------------------------
(* Who owns the memory of a decoding in progress. A value is a tree of parts *)
(* (texts, lists, boxes, structs); the decoder works on a stack of unfinished*)
(* ones. Every block belongs to exactly one place, and so nothing is lost    *)
(* and nothing is released twice, wherever the decoding ends.                *)
(*   stk   unfinished parts, innermost last: [k, blk, parts, slot]           *)
(*         blk    its own block (0 none), n its size                         *)
(*         parts  finished parts inside it, each the set of its blocks       *)
(*   value the finished value's blocks (ph = "held")                         *)
(*   bad   blocks being released after an error, or by dropping the value    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxDepth, MaxParts, MaxBlocks
VARIABLES live, next, stk, value, bad, ph
vars == <<live, next, stk, value, bad, ph>>
H == INSTANCE Heap
Frame(k, b) == [k |-> k, blk |-> b, parts |-> <<>>]
Init == /\ live = {} /\ next = 1 /\ value = {} /\ bad = {} /\ ph = "read"
        /\ \E k \in {"struct", "list"} : stk = <<Frame(k, 0)>>
Top == stk[Len(stk)]
Rest == SubSeq(stk, 1, Len(stk) - 1)
Size(b) == (CHOOSE x \in live : x.b = b).n
Of(f) == (IF f.blk = 0 THEN {} ELSE {f.blk}) \cup UNION {f.parts[i] : i \in 1..Len(f.parts)}
Reading == ph = "read"
Room == Reading /\ next <= MaxBlocks
\* a part that needs memory of its own and is complete at once: text, binary
Text == /\ Room /\ Len(Top.parts) < MaxParts /\ H!Take(next, 1) /\ next' = next + 1
        /\ (Top.k = "list" => Top.blk # 0 /\ Size(Top.blk) > Len(Top.parts))
        /\ stk' = Append(Rest, [Top EXCEPT !.parts = Append(@, {next})])
        /\ UNCHANGED <<value, bad, ph>>
\* a part without memory: number, flag, empty text
Plain == /\ Reading /\ Len(Top.parts) < MaxParts
         /\ (Top.k = "list" => Top.blk # 0 /\ Size(Top.blk) > Len(Top.parts))
         /\ stk' = Append(Rest, [Top EXCEPT !.parts = Append(@, {})])
         /\ UNCHANGED <<live, next, value, bad, ph>>
\* a list makes room, all at once or as it grows
Reserve == /\ Reading /\ Top.k = "list"
           /\ \E n \in 1..MaxParts :
                IF Top.blk = 0
                THEN next <= MaxBlocks /\ H!Take(next, n) /\ next' = next + 1 /\ stk' = Append(Rest, [Top EXCEPT !.blk = next])
                ELSE n > Size(Top.blk) /\ H!Resize(Top.blk, Size(Top.blk), n) /\ UNCHANGED <<next, stk>>
           /\ UNCHANGED <<value, bad, ph>>
\* a part inside: boxes have their block from the beginning
Open == /\ Reading /\ Len(stk) < MaxDepth /\ Len(Top.parts) < MaxParts
        /\ (Top.k = "list" => Top.blk # 0 /\ Size(Top.blk) > Len(Top.parts))
        /\ \/ \E k \in {"struct", "list"} : stk' = Append(stk, Frame(k, 0)) /\ UNCHANGED <<live, next>>
           \/ next <= MaxBlocks /\ H!Take(next, 1) /\ next' = next + 1 /\ stk' = Append(stk, Frame("box", next))
        /\ UNCHANGED <<value, bad, ph>>
\* a required field occurs again: its former content goes first (or last: not observable)
Again == /\ Reading /\ Top.k = "struct" /\ Top.parts # <<>>
         /\ \E i \in 1..Len(Top.parts) : \E b \in Top.parts[i] :
              /\ H!Release(b, Size(b)) /\ stk' = Append(Rest, [Top EXCEPT !.parts[i] = @ \ {b}])
         /\ UNCHANGED <<next, value, bad, ph>>
Close == /\ Reading /\ (Top.k = "box" => Len(Top.parts) = 1)
         /\ IF Len(stk) = 1 THEN value' = Of(Top) /\ stk' = <<>> /\ ph' = "held"
            ELSE /\ stk' = [i \in 1..Len(stk) - 1 |-> IF i = Len(stk) - 1 THEN [stk[i] EXCEPT !.parts = Append(@, Of(Top))] ELSE stk[i]]
                 /\ UNCHANGED <<value, ph>>
         /\ UNCHANGED <<live, next, bad>>
\* an error anywhere: everything unfinished goes, innermost first
Fail == Reading /\ ph' = "fail" /\ bad' = Of(Top) /\ stk' = Rest /\ UNCHANGED <<live, next, value>>
Unwind == /\ ph = "fail" /\ bad = {} /\ stk # <<>> /\ bad' = Of(Top) /\ stk' = Rest /\ UNCHANGED <<live, next, value, ph>>
Drop == ph = "held" /\ ph' = "fail" /\ bad' = value /\ value' = {} /\ UNCHANGED <<live, next, stk>>
Free == ph = "fail" /\ \E b \in bad : H!Release(b, Size(b)) /\ bad' = bad \ {b} /\ UNCHANGED <<next, stk, value, ph>>
End == ph = "fail" /\ bad = {} /\ stk = <<>>
Next == Text \/ Plain \/ Reserve \/ Open \/ Again \/ Close \/ Fail \/ Unwind \/ Drop \/ Free \/ (End /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Places == [i \in 1..Len(stk) |-> Of(stk[i])] \o <<value, bad>>
Owned == /\ {x.b : x \in live} = UNION {Places[i] : i \in 1..Len(Places)}
         /\ \A i, j \in 1..Len(Places) : i # j => Places[i] \cap Places[j] = {}
         /\ \A i \in 1..Len(stk) : \A p, q \in 1..Len(stk[i].parts) :
              (p # q => stk[i].parts[p] \cap stk[i].parts[q] = {}) /\ stk[i].blk \notin stk[i].parts[p]
Clean == End => H!Empty
\* and it treats memory as memory has to be treated
HeapNext == \/ \E b \in 1..MaxBlocks, n \in 1..MaxParts : H!Take(b, n) \/ H!Release(b, n)
            \/ \E b \in 1..MaxBlocks, n, m \in 1..MaxParts : H!Resize(b, n, m)
Treats == [][HeapNext]_live
=============================================================================
