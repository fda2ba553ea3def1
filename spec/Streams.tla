------------------------------ MODULE Streams ------------------------------
(* How simulations share random generators: every process owns one generator *)
(* object and a global one that was seeded for the number of storms.  The     *)
(* catalogue is independent of how simulations are shared iff every           *)
(* simulation starts from its own stream (Restart) and draws nothing from     *)
(* the process-global generator (Private).                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Sims,      \* number of simulations
          MaxProc,   \* largest number of processes
          Restart,   \* a simulation starts its own stream
          Private    \* storms draw only from the simulation's stream

VARIABLES n,         \* processes
          todo,      \* simulations not yet started, per process
          gen,       \* gen[p]: <<stream, position>> of the process's generator
          glob,      \* glob[p]: position of the process-global generator
          content    \* content[s]: numbers the simulation was made of
vars == <<n, todo, gen, glob, content>>

Share(p, k) == {s \in 0..(Sims - 1) : s % k = p}
Draws(s) == 1 + (s % 2)      \* storms in the simulation

Init == /\ n \in 1..MaxProc
        /\ todo = [p \in 0..(n - 1) |-> Share(p, n)]
        /\ gen = [p \in 0..(n - 1) |-> <<99, 0>>]
        /\ glob = [p \in 0..(n - 1) |-> 0]
        /\ content = [s \in 0..(Sims - 1) |-> <<>>]

Do(p) == \E s \in todo[p] :
  LET g0 == IF Restart THEN <<s, 0>> ELSE gen[p]
      d == Draws(s) IN
  /\ todo' = [todo EXCEPT ![p] = @ \ {s}]
  /\ gen' = [gen EXCEPT ![p] = <<g0[1], g0[2] + d>>]
  /\ glob' = [glob EXCEPT ![p] = @ + (IF Private THEN 0 ELSE d)]
  /\ content' = [content EXCEPT ![s] = <<g0, IF Private THEN 0 ELSE glob[p]>>]
  /\ UNCHANGED n
Next == \E p \in 0..(n - 1) : Do(p)
Spec == Init /\ [][Next]_vars

Expected(s) == <<<<s, 0>>, 0>>
SeedsOnly == \A s \in DOMAIN content : content[s] \in {<<>>, Expected(s)}
Distinct == \A s, t \in DOMAIN content : (s # t /\ content[s] # <<>>) => content[s] # content[t]
=============================================================================
