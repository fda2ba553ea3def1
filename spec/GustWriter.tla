----------------------------- MODULE GustWriter -----------------------------
(* How the files are written: any number of processes share the storms, skip  *)
(* those whose file looks finished, and may be killed, cut short or fail at   *)
(* any instant.  `Mode` selects how a file appears on disk:                   *)
(*   "replace" : written under another name and moved into place when whole   *)
(*   "inplace" : written under its own name, finished-looking from `Looks` on *)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS Mode, Looks      \* Looks: pieces after which a file passes for finished
Pieces == 3
Storms == 1..3
Procs == 1..2
MaxRuns == 3
VARIABLES file, tmp, pc, todo, runs, up, np
vars == <<file, tmp, pc, todo, runs, up, np>>
\* file[s]: pieces on disk under the final name; Pieces = whole
Init == /\ file = [s \in Storms |-> 0] /\ tmp = [s \in Storms |-> 0]
        /\ pc = [p \in Procs |-> 0] /\ todo = [p \in Procs |-> {}]
        /\ runs = 0 /\ up = FALSE /\ np = 1
LooksDone(s) == file[s] >= Looks
Share(n) == {t \in [Procs -> SUBSET Storms] :
               /\ UNION {t[p] : p \in 1..n} = Storms
               /\ \A p \in Procs : p > n => t[p] = {}
               /\ \A p, q \in Procs : p # q => t[p] \cap t[q] = {}}
Start == /\ ~up /\ runs < MaxRuns
         /\ \E n \in Procs : np' = n /\ \E t \in Share(n) : todo' = t
         /\ pc' = [p \in Procs |-> 0] /\ up' = TRUE /\ runs' = runs + 1
         /\ UNCHANGED <<file, tmp>>
Take(p) == /\ up /\ pc[p] = 0 /\ todo[p] # {}
           /\ \E s \in todo[p] :
                IF LooksDone(s) THEN todo' = [todo EXCEPT ![p] = @ \ {s}] /\ UNCHANGED <<pc, file, tmp>>
                ELSE /\ pc' = [pc EXCEPT ![p] = s] /\ UNCHANGED todo
                     /\ IF Mode = "inplace" THEN file' = [file EXCEPT ![s] = 0] /\ UNCHANGED tmp
                        ELSE tmp' = [tmp EXCEPT ![s] = 0] /\ UNCHANGED file
           /\ UNCHANGED <<runs, up, np>>
Write(p) == /\ up /\ pc[p] # 0
            /\ LET s == pc[p] IN
               IF Mode = "inplace"
               THEN /\ file' = [file EXCEPT ![s] = @ + 1] /\ UNCHANGED tmp
                    /\ IF file[s] + 1 = Pieces
                       THEN pc' = [pc EXCEPT ![p] = 0] /\ todo' = [todo EXCEPT ![p] = @ \ {s}]
                       ELSE UNCHANGED <<pc, todo>>
               ELSE IF tmp[s] < Pieces
                    THEN tmp' = [tmp EXCEPT ![s] = @ + 1] /\ UNCHANGED <<file, pc, todo>>
                    ELSE /\ file' = [file EXCEPT ![s] = Pieces] /\ tmp' = [tmp EXCEPT ![s] = 0]
                         /\ pc' = [pc EXCEPT ![p] = 0] /\ todo' = [todo EXCEPT ![p] = @ \ {s}]
            /\ UNCHANGED <<runs, up, np>>
Crash == up /\ up' = FALSE /\ UNCHANGED <<file, tmp, pc, todo, runs, np>>
Idle == \A p \in Procs : todo[p] = {} /\ pc[p] = 0
Finish == up /\ Idle /\ up' = FALSE /\ UNCHANGED <<file, tmp, pc, todo, runs, np>>
Next == Start \/ Crash \/ Finish \/ \E p \in Procs : Take(p) \/ Write(p)
Spec == Init /\ [][Next]_vars
\* whenever a run is over, every storm has its whole file
Complete == up /\ Idle => \A s \in Storms : file[s] = Pieces /\ tmp[s] = 0
NeverMistaken == \A s \in Storms : LooksDone(s) /\ (\A p \in Procs : pc[p] # s \/ ~up) => file[s] = Pieces
=============================================================================
