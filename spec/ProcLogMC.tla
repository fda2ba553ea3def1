----------------------------- MODULE ProcLogMC -----------------------------
EXTENDS ProcLog
VARIABLE last, steps     \* last: what was recorded last for each file since the log was deleted
mvars == <<vars, last, steps>>
MInit == InitWith([n |-> 2]) /\ last = [f \in 1..2 |-> None] /\ steps = 0
Ops == {[t |-> "modify", f |-> f, c |-> c, d |-> d] : f \in 1..2, c \in 1..2, d \in 1..2}
       \cup {[t |-> "record", f |-> f] : f \in 1..2}
       \cup {[t |-> "restart"], [t |-> "load"], [t |-> "delete"]}
MNext == /\ steps < 8 /\ steps' = steps + 1
         /\ \E e \in Ops :
            /\ e.t = "record" => file[e.f] # None
            /\ e.t = "restart" => known
            /\ e.t = "delete" => there
            /\ e.t = "load" => ~known      \* a process loads its log once, first
            /\ known \/ e.t \in {"load", "modify"}
            /\ Apply(e)
            /\ last' = IF e.t = "record" /\ known THEN [last EXCEPT ![e.f] = file[e.f]]
                       ELSE IF e.t = "delete" THEN [f \in 1..2 |-> None] ELSE last
MSpec == MInit /\ [][MNext]_mvars
\* reading the log back gives exactly the last entry of every file
Faithful == Latest([f \in Files |-> None], disk) = last
\* a process that loaded the log knows at least what is on disk
MemOk == known => \A f \in Files : last[f] # None => mem[f] = last[f]
=============================================================================
