------------------------------ MODULE GustFiles ------------------------------
(* Wind-field files across interrupted and resumed runs.  What is on disk is  *)
(* observed after every run: per storm "absent", "whole" (the contents of an  *)
(* uninterrupted run) or "bad".                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES cfg,     \* need[s]: storm s enters the domain (its file must exist)
          disk, running
vars == <<cfg, disk, running>>

InitWith(c) == /\ cfg = c
               /\ disk = [s \in DOMAIN c.need |-> "absent"]
               /\ running = FALSE
Storms == DOMAIN cfg.need
\* a run, interrupted or not, never damages a finished file
Kept(f) == \A s \in Storms : disk[s] = "whole" => f[s] = "whole"

Why(e) ==
  CASE e.t = "start" -> IF running THEN "machinery: run inside a run" ELSE ""
    [] e.t = "damage" -> IF running THEN "machinery: damage inside a run" ELSE ""
    [] e.t = "cut" -> IF ~Kept(e.f) THEN "an interrupted run loses a finished file" ELSE ""
    [] e.t = "done" ->
         IF e.failed THEN "a resumed run fails"
         ELSE IF \E s \in Storms : cfg.need[s] /\ e.f[s] = "absent" THEN "a storm has no wind-field file"
         ELSE IF \E s \in Storms : e.f[s] = "bad" THEN "an incomplete or wrong file is taken for a finished one"
         ELSE IF ~Kept(e.f) THEN "a finished file is lost"
         ELSE IF e.extra # 0 THEN "left-over files are indistinguishable from wind fields"
         ELSE ""
    [] OTHER -> "unknown event"
Apply(e) ==
  CASE e.t = "start" -> running' = TRUE /\ UNCHANGED <<cfg, disk>>
    [] OTHER -> running' = FALSE /\ disk' = e.f /\ UNCHANGED cfg
WhyEnd == IF running THEN "machinery: run not closed" ELSE ""
=============================================================================
