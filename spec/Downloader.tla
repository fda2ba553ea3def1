----------------------------- MODULE Downloader -----------------------------
(* Block by block: how a data set reaches the disk, with failures and crashes *)
(* at any block.  Mode "replace" writes elsewhere and moves the whole file    *)
(* into place, "inplace" writes under the final name; Check compares the      *)
(* number of blocks received with the announced one; Go: a failed data set    *)
(* does not end the run.                                                      *)
EXTENDS Naturals, FiniteSets

CONSTANTS Mode, Check, Go
N == 2
Blocks == 3
MaxRuns == 3
VARIABLES file, tmp, got, i, up, runs, fetched, failed, done
vars == <<file, tmp, got, i, up, runs, fetched, failed, done>>
D == 1..N
Init == /\ file = [d \in D |-> 0] /\ tmp = [d \in D |-> 0] /\ got = 0 /\ i = 1 /\ up = FALSE /\ runs = 0
        /\ fetched = [d \in D |-> 0] /\ failed = FALSE /\ done = FALSE
Present(d) == file[d] > 0
Start == /\ ~up /\ runs < MaxRuns /\ up' = TRUE /\ runs' = runs + 1 /\ i' = 1 /\ got' = 0
         /\ fetched' = [d \in D |-> 0] /\ failed' = FALSE /\ done' = FALSE /\ UNCHANGED <<file, tmp>>
Skip == /\ up /\ i <= N /\ got = 0 /\ Present(i) /\ i' = i + 1
        /\ UNCHANGED <<file, tmp, got, up, runs, fetched, failed, done>>
\* one more block arrives
Block == /\ up /\ i <= N /\ got < Blocks /\ (got > 0 \/ ~Present(i)) /\ got' = got + 1
         /\ fetched' = IF got = 0 THEN [fetched EXCEPT ![i] = @ + 1] ELSE fetched
         /\ IF Mode = "inplace" THEN file' = [file EXCEPT ![i] = got + 1] /\ UNCHANGED tmp
            ELSE tmp' = [tmp EXCEPT ![i] = got + 1] /\ UNCHANGED file
         /\ UNCHANGED <<i, up, runs, failed, done>>
\* the stream ends: whole, or cut short without an error
Eof == /\ up /\ i <= N /\ got > 0
       /\ IF got < Blocks /\ Check
          THEN /\ failed' = TRUE /\ i' = (IF Go THEN i + 1 ELSE N + 1) /\ UNCHANGED file
               /\ tmp' = [tmp EXCEPT ![i] = 0]
          ELSE /\ file' = [file EXCEPT ![i] = got] /\ tmp' = [tmp EXCEPT ![i] = 0]
               /\ i' = i + 1 /\ UNCHANGED failed
       /\ got' = 0 /\ UNCHANGED <<up, runs, fetched, done>>
\* an error is noticed by the program
Error == /\ up /\ i <= N /\ (got > 0 \/ ~Present(i)) /\ failed' = TRUE
         /\ i' = (IF Go THEN i + 1 ELSE N + 1) /\ got' = 0
         /\ tmp' = [tmp EXCEPT ![i] = 0] /\ UNCHANGED <<file, up, runs, fetched, done>>
Crash == up /\ up' = FALSE /\ UNCHANGED <<file, tmp, got, i, runs, fetched, failed, done>>
Finish == up /\ i > N /\ up' = FALSE /\ done' = TRUE /\ UNCHANGED <<file, tmp, got, i, runs, fetched, failed>>
Next == Start \/ Skip \/ Block \/ Eof \/ Error \/ Crash \/ Finish
Spec == Init /\ [][Next]_vars
\* what the next run takes for present is whole
WholeOrNothing == ~up => \A d \in D : Present(d) => file[d] = Blocks
OncePerRun == \A d \in D : fetched[d] <= 1
Reported == done => (failed <=> \E d \in D : file[d] # Blocks)
\* in a run that reached its end every data set was present or was tried
=============================================================================
