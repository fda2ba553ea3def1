---------------------------- MODULE SegmentPool ----------------------------
(* Threads that take segments of a raster from a queue, read their part of    *)
(* the inputs under one lock per input, and write their part of the output    *)
(* under a lock.  Careful: taking from the queue does not wait; otherwise a   *)
(* thread looks whether the queue is empty and then takes, waiting.           *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Threads, NSeg, Careful, Locked
Segments == 1..NSeg
Rasters == {"in", "out"}
VARIABLES queue, pc, seg, inside, written, order
vars == <<queue, pc, seg, inside, written, order>>
Init == /\ queue = [i \in Segments |-> i]
        /\ pc = [t \in Threads |-> "look"]
        /\ seg = [t \in Threads |-> 0]
        /\ inside = [r \in Rasters |-> {}]
        /\ written = [s \in Segments |-> 0]
        /\ order = <<>>
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Note(t) == order' = Append(order, t)
Look(t) == /\ pc[t] = "look" /\ Note(t)
           /\ IF Careful
              THEN IF queue = <<>> THEN Go(t, "done") /\ UNCHANGED <<queue, seg>>
                   ELSE Go(t, "read") /\ seg' = [seg EXCEPT ![t] = Head(queue)] /\ queue' = Tail(queue)
              ELSE Go(t, IF queue = <<>> THEN "done" ELSE "take") /\ UNCHANGED <<queue, seg>>
           /\ UNCHANGED <<inside, written>>
Take(t) == /\ pc[t] = "take" /\ queue # <<>> /\ Note(t)
           /\ Go(t, "read") /\ seg' = [seg EXCEPT ![t] = Head(queue)] /\ queue' = Tail(queue)
           /\ UNCHANGED <<inside, written>>
Enter(t, r, p) == /\ (Locked => inside[r] = {}) /\ inside' = [inside EXCEPT ![r] = @ \union {t}] /\ Go(t, p) /\ Note(t)
                  /\ UNCHANGED <<queue, seg, written>>
Read(t) == pc[t] = "read" /\ Enter(t, "in", "reading")
ReadEnd(t) == /\ pc[t] = "reading" /\ inside' = [inside EXCEPT !["in"] = @ \ {t}] /\ Go(t, "write") /\ Note(t)
              /\ UNCHANGED <<queue, seg, written>>
Write(t) == pc[t] = "write" /\ Enter(t, "out", "writing")
WriteEnd(t) == /\ pc[t] = "writing" /\ inside' = [inside EXCEPT !["out"] = @ \ {t}] /\ Go(t, "look") /\ Note(t)
               /\ written' = [written EXCEPT ![seg[t]] = @ + 1]
               /\ UNCHANGED <<queue, seg>>
Next == \E t \in Threads : Look(t) \/ Take(t) \/ Read(t) \/ ReadEnd(t) \/ Write(t) \/ WriteEnd(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == <<queue, pc, seg, inside, written>>
Finished == \A t \in Threads : pc[t] = "done"
NoHang == ENABLED Next \/ Finished
Exclusive == \A r \in Rasters : Cardinality(inside[r]) <= 1
Once == \A s \in Segments : written[s] <= 1
AllWritten == Finished => \A s \in Segments : written[s] = 1
=============================================================================
