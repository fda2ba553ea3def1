------------------------------ MODULE EvalFarm ------------------------------
(* One analysis after another, each shared by a master and workers: the       *)
(* history is read, everybody meets, files are handed out and the results     *)
(* kept by file, everybody meets, the master saves.  Reading the history may  *)
(* contain a meeting of its own (Inner).  Wrong ways to do it are selected by *)
(* the constants: Slot = "arrival" keeps results in order of arrival, Guard = *)
(* FALSE hands out more files than there are, Reader = "master" lets only the *)
(* master read the history.                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Slot, Guard, Reader
VARIABLES n, files, inner, round, pc, chan, w, p, term, next, slot, wrong
vars == <<n, files, inner, round, pc, chan, w, p, term, next, slot, wrong>>
Ranks == 0..(n - 1)
Rounds == 2
Init == /\ n \in 1..4 /\ files \in 1..4 /\ inner \in BOOLEAN
        /\ round = [r \in 0..3 |-> 1]
        /\ pc = [r \in 0..3 |-> "read"]
        /\ chan = [r \in 0..3 |-> <<>>]          \* to rank r: <<from, file>>
        /\ w = 0 /\ p = 0 /\ term = 0 /\ next = 1
        /\ slot = [f \in 1..4 |-> 0] /\ wrong = {}
Go(r, s) == pc' = [pc EXCEPT ![r] = s]
\* meeting points: leave together
Meet(from, to) == /\ \A r \in Ranks : pc[r] \in from
                  /\ pc' = [r \in 0..3 |-> IF r \in Ranks THEN to[pc[r]][IF r = 0 THEN 1 ELSE 2] ELSE pc[r]]
                  /\ UNCHANGED <<n, files, inner, round, chan, w, p, term, next, slot, wrong>>
Read(r) == /\ pc[r] = "read"
           /\ Go(r, IF inner /\ (Reader = "all" \/ r = 0) THEN "m0" ELSE "m1")
           /\ UNCHANGED <<n, files, inner, round, chan, w, p, term, next, slot, wrong>>
Points == {"m0", "m1", "m2"}
After == [x \in Points |-> CASE x = "m0" -> <<"m1", "m1">> [] x = "m1" -> <<"give", "wait">> [] x = "m2" -> <<"save", "save">>]
Meeting == Meet(Points, After)
\* the master alone does all files
Serial == /\ n = 1 /\ pc[0] = "give"
          /\ slot' = [f \in 1..4 |-> IF f <= files THEN f ELSE slot[f]] /\ Go(0, "m2")
          /\ UNCHANGED <<n, files, inner, round, chan, w, p, term, next, wrong>>
Give == /\ n > 1 /\ pc[0] = "give"
        /\ IF w + 1 < n
           THEN /\ w' = w + 1
                /\ IF w + 1 <= files THEN chan' = [chan EXCEPT ![w + 1] = Append(@, <<0, w + 1>>)] /\ p' = p + 1 /\ UNCHANGED wrong
                   ELSE IF Guard THEN chan' = [chan EXCEPT ![w + 1] = Append(@, <<0, 0>>)] /\ UNCHANGED <<p, wrong>>
                   ELSE wrong' = wrong \union {"no such file"} /\ UNCHANGED <<chan, p>>
                /\ UNCHANGED pc
           ELSE /\ Go(0, IF p = 0 THEN "m2" ELSE "collect") /\ UNCHANGED <<w, p, chan, wrong>>
        /\ UNCHANGED <<n, files, inner, round, term, next, slot>>
Handed == IF w > files THEN files ELSE w
Work(r) == /\ r # 0 /\ pc[r] = "wait" /\ chan[r] # <<>>
           /\ LET f == Head(chan[r])[2] IN
              IF f = 0 THEN Go(r, "m2") /\ chan' = [chan EXCEPT ![r] = Tail(@)]
              ELSE chan' = [chan EXCEPT ![r] = Tail(@), ![0] = Append(@, <<r, f>>)] /\ UNCHANGED pc
           /\ UNCHANGED <<n, files, inner, round, w, p, term, next, slot, wrong>>
\* results of different workers arrive in any order
Collect == /\ pc[0] = "collect"
           /\ \E i \in DOMAIN chan[0] :
                LET d == chan[0][i][1]  f == chan[0][i][2]
                    rest == SubSeq(chan[0], 1, i - 1) \o SubSeq(chan[0], i + 1, Len(chan[0]))
                    given == IF w < n - 1 THEN n - 1 ELSE w IN
                /\ \A j \in 1..(i - 1) : chan[0][j][1] # d
                /\ slot' = [slot EXCEPT ![IF Slot = "file" THEN f ELSE next] = f]
                /\ next' = next + 1
                /\ IF given < files
                   THEN /\ chan' = [chan EXCEPT ![0] = rest, ![d] = Append(@, <<0, given + 1>>)]
                        /\ w' = given + 1 /\ UNCHANGED <<term, pc>>
                   ELSE /\ chan' = [chan EXCEPT ![0] = rest, ![d] = Append(@, <<0, 0>>)]
                        /\ term' = term + 1 /\ UNCHANGED w
                        /\ IF term + 1 = p THEN Go(0, "m2") ELSE UNCHANGED pc
           /\ UNCHANGED <<n, files, inner, round, p, wrong>>
\* the master writes the results down and starts the next analysis afresh
Save(r) == /\ pc[r] = "save"
           /\ IF r = 0
              THEN /\ wrong' = wrong \union (IF \A f \in 1..files : slot[f] = f THEN {} ELSE {"wrong results"})
                   /\ w' = 0 /\ p' = 0 /\ term' = 0 /\ next' = 1 /\ slot' = [f \in 1..4 |-> 0]
              ELSE UNCHANGED <<w, p, term, next, slot, wrong>>
           /\ IF round[r] < Rounds THEN round' = [round EXCEPT ![r] = @ + 1] /\ Go(r, "read")
              ELSE UNCHANGED round /\ Go(r, "end")
           /\ UNCHANGED <<n, files, inner, chan>>
Next == Meeting \/ Serial \/ Give \/ Collect \/ \E r \in Ranks : Read(r) \/ Work(r) \/ Save(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ended == \A r \in Ranks : pc[r] = "end"
Right == wrong = {}
NoStuck == Ended \/ ENABLED Next
Clean == Ended => \A r \in Ranks : chan[r] = <<>>
Finish == <>Ended
=============================================================================
