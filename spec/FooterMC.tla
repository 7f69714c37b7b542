------------------------------ MODULE FooterMC ------------------------------
(* Footer extraction as a dialogue with a seekable source that may deliver   *)
(* as little as it likes, report interruptions, shrink, and fail at any call.       *)
(* Whatever the source does, the outcome is the footer or an error, and an   *)
(* error only if the file is not a parquet file or the source failed.  Every *)
(* finished dialogue is printed and repeated with the code.                  *)
EXTENDS ParquetFile, FiniteSets, Json
CONSTANTS MaxPrefix, MaxCalls
VARIABLES file, pc, pos, need, buf, sched, seeks, hit, res
vars == <<file, pc, pos, need, buf, sched, seeks, hit, res>>

Prefixes == {[i \in 1..k |-> 10 + i] : k \in 0..MaxPrefix}
Lengths == {<<m, 0, 0, 0>> : m \in 0..MaxPrefix+1} \cup {<<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 128>>, <<255, 255, 255, 255>>, <<0, 0, 0, 1>>}
Magics == {Magic} \cup {[Magic EXCEPT ![k] = 69] : k \in 1..4} \cup {<<49, 82, 65, 80>>}
Whole == {p \o l \o Magic : p \in Prefixes, l \in Lengths}
         \cup {p \o <<1, 0, 0, 0>> \o mg : p \in {<<>>, <<10>>}, mg \in Magics}
         \cup {<<1, 2, 3>> \o Magic, Magic \o <<0, 0, 0, 0>>, Magic \o <<0, 0, 0, 0>> \o Magic}
Short == {SubSeq(<<7, 1, 0, 0, 0>> \o Magic, k, 9) : k \in 3..10}
Contents == Whole \cup Short
Bytes(b) == [len |-> N(Len(b)), parts |-> IF b = <<>> THEN <<>> ELSE <<[at |-> N(0), b |-> b]>>]
Size == Count(file.len)
At(i) == FileByte(file, N(i))

Init == /\ \E b \in Contents : file = Bytes(b)
        /\ pc = "seek tail" /\ pos = 0 /\ need = 0 /\ buf = <<>> /\ sched = <<>> /\ seeks = 0 /\ hit = FALSE /\ res = "none"
Stop(r) == pc' = "done" /\ res' = r
\* the source's moves
SeekFails == /\ pc \in {"seek tail", "seek meta"} /\ hit' = TRUE /\ Stop("error") /\ UNCHANGED <<file, pos, need, buf, sched, seeks>>
SeekTo(back, n, next) ==
  /\ seeks' = seeks + 1
  /\ IF Leq(back, file.len)
     THEN pc' = next /\ pos' = Size - Count(back) /\ need' = n /\ buf' = <<>> /\ res' = res
     ELSE Stop("error") /\ UNCHANGED <<pos, need, buf>>
  /\ UNCHANGED <<file, sched, hit>>
SeekTail == pc = "seek tail" /\ SeekTo(N(8), 8, "read tail")
Reading == pc \in {"read tail", "read meta"} /\ Len(buf) < need
Delivers == /\ Reading
            /\ \E k \in 1..(need - Len(buf)) :
                 /\ pos + k <= Size
                 /\ (IF k = need - Len(buf) THEN TRUE ELSE Len(sched) < MaxCalls)
                 /\ buf' = buf \o [i \in 1..k |-> At(pos + i - 1)]
                 /\ pos' = pos + k /\ sched' = Append(sched, k)
            /\ UNCHANGED <<file, pc, need, seeks, hit, res>>
Interrupts == /\ Reading /\ Len(sched) < MaxCalls /\ (IF sched = <<>> THEN TRUE ELSE sched[Len(sched)] # 0)
              /\ sched' = Append(sched, 0) /\ UNCHANGED <<file, pc, pos, need, buf, seeks, hit, res>>
ReadFails == /\ Reading /\ Len(sched) <= MaxCalls /\ hit' = TRUE /\ (\E f \in {-1, -3} : sched' = Append(sched, f)) /\ Stop("error")
             /\ UNCHANGED <<file, pos, need, buf, seeks>>
\* the file has become shorter since its length was asked for
Shrinks == /\ Reading /\ Len(sched) <= MaxCalls /\ hit' = TRUE /\ sched' = Append(sched, -2) /\ Stop("error")
           /\ UNCHANGED <<file, pos, need, buf, seeks>>
Ends == Reading /\ pos = Size /\ Stop("error") /\ UNCHANGED <<file, pos, need, buf, sched, seeks, hit>>
\* the extractor's moves
CheckTail ==
  /\ pc = "read tail" /\ Len(buf) = need
  /\ IF SubSeq(buf, 5, 8) = Magic THEN pc' = "seek meta" /\ res' = res ELSE Stop("error")
  /\ UNCHANGED <<file, pos, need, buf, sched, seeks, hit>>
Announced == <<buf[1] + 256 * buf[2], buf[3] + 256 * buf[4], 0, 0>>
SeekMeta == pc = "seek meta" /\ SeekTo(Add(Announced, N(8)), Count(Announced), "read meta")
Finish == pc = "read meta" /\ Len(buf) = need /\ Stop("ok") /\ UNCHANGED <<file, pos, need, buf, sched, seeks, hit>>
Report == /\ pc = "done" /\ pc' = "over"
          /\ PrintT("@" \o ToJson([b |-> IF file.parts = <<>> THEN <<>> ELSE file.parts[1].b, sched |-> sched, seeks |-> seeks, hit |-> hit,
                                   ok |-> res = "ok", out |-> IF res = "ok" THEN buf ELSE <<>>]))
          /\ UNCHANGED <<file, pos, need, buf, sched, seeks, hit, res>>
Over == pc = "over" /\ UNCHANGED vars
Next == SeekFails \/ SeekTail \/ Delivers \/ Interrupts \/ ReadFails \/ Shrinks \/ Ends \/ CheckTail \/ SeekMeta \/ Finish \/ Report \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sparse(b) == [n |-> Len(b), nz |-> {<<i - 1, b[i]>> : i \in {i \in 1..Len(b) : b[i] # 0}}]
Finished == pc \in {"done", "over"}
Correct == Finished => /\ res = "ok" => FooterValid(file) /\ Sparse(buf) = Footer(file)
                       /\ res = "error" => ~FooterValid(file) \/ hit
Terminates == <>(pc = "over")
=============================================================================
