------------------------------ MODULE TileFarm ------------------------------
(* Observable contract of the distributed hazard calculation.  The cells of   *)
(* the domain are computed by some process; every process ends; the result    *)
(* file holds for each cell the value a single process would have stored.     *)
(* Cell values are integer codes: equal codes are equal values.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES cfg,      \* n: processes, ref: sequence of value codes (one per cell)
          comp,     \* cell -> number of times computed
          ended,    \* processes that finished normally
          out       \* result file: <<>> or the sequence of value codes
vars == <<cfg, comp, ended, out>>

Cells == 1..Len(cfg.ref)
Procs == 0..(cfg.n - 1)
InitWith(c) == /\ cfg = c
               /\ comp = [k \in 1..Len(c.ref) |-> 0]
               /\ ended = {}
               /\ out = <<>>

Why(e) ==
  CASE e.t = "compute" ->
         IF \E i \in 1..Len(e.cells) : e.cells[i] \notin Cells
         THEN "computes a cell outside the domain"
         ELSE IF \E i \in 1..Len(e.cells) : comp[e.cells[i]] > 0
         THEN "computes a cell twice"
         ELSE ""
    [] e.t = "end" ->
         IF e.r \in ended THEN "ends twice"
         ELSE IF ~e.ok THEN "a process fails" ELSE ""
    [] e.t = "stuck" -> "processes wait for each other forever"
    [] e.t = "lost" -> "a message is never received"
    [] e.t = "result" ->
         IF Len(e.got) # Len(cfg.ref) THEN "result has the wrong shape"
         ELSE IF \E k \in Cells : e.got[k] # cfg.ref[k]
         THEN "result differs from the single-process result"
         ELSE ""
    [] OTHER -> "unknown event"

Apply(e) ==
  CASE e.t = "compute" ->
         /\ comp' = [k \in Cells |-> comp[k] +
                       Cardinality({i \in 1..Len(e.cells) : e.cells[i] = k})]
         /\ UNCHANGED <<cfg, ended, out>>
    [] e.t = "end" -> ended' = ended \cup {e.r} /\ UNCHANGED <<cfg, comp, out>>
    [] e.t = "result" -> out' = e.got /\ UNCHANGED <<cfg, comp, ended>>
    [] OTHER -> UNCHANGED vars

WhyEnd == IF ended # Procs THEN "some process never ends"
          ELSE IF out = <<>> /\ Len(cfg.ref) > 0 THEN "no result file"
          ELSE IF cfg.observed /\ \E k \in Cells : comp[k] # 1 THEN "a cell is not computed exactly once"
          ELSE ""

(* exhaustive: any split of the cells into tiles, any order *)
Configs == [n : 1..3, ref : {<<7, 8, 9>>, <<5>>}, observed : {TRUE}]
Init == \E c \in Configs : InitWith(c)
Tile == {<<i>> : i \in 1..3} \cup {<<i, j>> : i \in 1..3, j \in 1..3}
Events == {[t |-> "compute", cells |-> x] : x \in Tile}
     \cup {[t |-> "end", r |-> r, ok |-> TRUE] : r \in 0..2}
     \cup {[t |-> "result", got |-> cfg.ref]}
Next == \E e \in Events : /\ e.t = "compute" => \A i, j \in 1..Len(e.cells) : i # j => e.cells[i] # e.cells[j]
                          /\ e.t = "end" => (\A k \in Cells : comp[k] = 1) /\ e.r \in Procs
                          /\ e.t = "result" => (out = <<>> /\ \A k \in Cells : comp[k] = 1)
                          /\ Why(e) = "" /\ Apply(e)
Spec == Init /\ [][Next]_vars
Once == \A k \in Cells : comp[k] <= 1
OutRight == out # <<>> => out = cfg.ref
Finished == (ended = Procs /\ out # <<>>) => WhyEnd = ""
=============================================================================
