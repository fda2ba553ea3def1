------------------------------ MODULE WorkPool ------------------------------
(* What a distributed calculation owes its user, independent of how the      *)
(* processes talk to each other: a pool of tasks is shared by processes;      *)
(* every task is computed by exactly one process, its result is stored once   *)
(* at its own place, and every process ends, none before all results are in.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANT NoOne
VARIABLES wcfg,      \* [n |-> number of processes, T |-> number of tasks]
          st,        \* task -> "todo" | "taken" | "stored"
          ended      \* set of processes that have finished
wvars == <<wcfg, st, ended>>

WTasks == 1..wcfg.T
WProcs == 0..(wcfg.n - 1)

WInit(c) == /\ wcfg = c
            /\ st = [k \in 1..c.T |-> "todo"]
            /\ ended = {}

Take(k) == /\ st[k] = "todo"
           /\ st' = [st EXCEPT ![k] = "taken"]
           /\ UNCHANGED <<wcfg, ended>>

Store(k) == /\ st[k] = "taken"
            /\ st' = [st EXCEPT ![k] = "stored"]
            /\ UNCHANGED <<wcfg, ended>>

End(r) == /\ r \in WProcs \ ended
          /\ \A k \in WTasks : st[k] = "stored"
          /\ ended' = ended \cup {r}
          /\ UNCHANGED <<wcfg, st>>

WNext == \/ \E k \in WTasks : Take(k) \/ Store(k)
         \/ \E r \in WProcs : End(r)

WSpec(c) == WInit(c) /\ [][WNext]_wvars
WSafe == [][WNext]_wvars
=============================================================================
