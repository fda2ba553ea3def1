----------------------------- MODULE DownloadMC -----------------------------
(* Every run and crash the specification accepts, for two data sets.          *)
EXTENDS Download
VARIABLES steps, asks, okrun     \* asks: fetches since a data set became present; okrun: last event was a fault-free run
mvars == <<vars, steps, asks, okrun>>
MInit == InitWith([n |-> 2]) /\ steps = 0 /\ asks = [i \in 1..2 |-> 0] /\ okrun = FALSE
Plans == {"ok", "nolength", "refused", "cut"}
St == {"none", "full", "partial"}
Ev == [t : {"run"}, plan : [1..2 -> Plans], disk : [1..2 -> St], asked : [1..2 -> 0..2], failed : BOOLEAN]
      \cup [t : {"crash"}, disk : [1..2 -> St], asked : [1..2 -> 0..1]]
      \cup [t : {"remove"}, i : 1..2]
MNext == /\ steps < 4 /\ steps' = steps + 1
         /\ \E e \in Ev : /\ Why(e) = "" /\ Apply(e)
                          /\ okrun' = (e.t = "run" /\ \A i \in 1..2 : e.plan[i] = "ok")
                          /\ asks' = [i \in 1..2 |-> IF e.t = "remove" THEN asks[i]
                                                     ELSE IF disk[i] = "full" THEN e.asked[i] ELSE 0]
MSpec == MInit /\ [][MNext]_mvars
NoPartial == \A i \in 1..2 : disk[i] # "partial"
NotAgain == \A i \in 1..2 : asks[i] = 0
Recovers == okrun => \A i \in 1..2 : disk[i] = "full"
=============================================================================
