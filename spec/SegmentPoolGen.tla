--------------------------- MODULE SegmentPoolGen ---------------------------
(* Behaviours of the pool, as the order in which its threads make steps.      *)
EXTENDS SegmentPool, TLC, Json
VARIABLE printed
GInit == Init /\ printed = FALSE
GNext == \/ Next /\ UNCHANGED printed
         \/ /\ ~ENABLED Next /\ ~printed /\ printed' = TRUE /\ UNCHANGED vars
            /\ PrintT("GEN" \o ToJson([order |-> order, hang |-> ~Finished]))
=============================================================================
