------------------------------ MODULE Download ------------------------------
(* Obtaining the configured data sets, run after run.  A run is described by  *)
(* what the server does for each data set (its plan) and what is observed     *)
(* when the run is over.                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES cfg,     \* n: number of data sets
          disk     \* data set -> "none" | "full"
vars == <<cfg, disk>>
InitWith(c) == cfg = c /\ disk = [i \in 1..c.n |-> "none"]

Sets == 1..cfg.n
Good == {"ok", "slow", "odd"}       \* the whole content arrives
Either == {"nolength"}              \* the whole content arrives, but nobody can tell
Bad == {"refused", "status", "cut", "reset", "badarchive", "garbage", "stall", "shortarchive", "nodir"}

\* the state a data set may be in after a run that reached its end
May(i, e) ==
  IF disk[i] = "full" THEN {"full"}
  ELSE IF e.plan[i] \in Good THEN {"full"}
  ELSE IF e.plan[i] \in Either THEN {"full", "none"} ELSE {"none"}

Why(e) ==
  CASE e.t = "run" ->
       IF \E i \in Sets : e.disk[i] = "partial" THEN "a data set is left incomplete or wrong"
       ELSE IF \E i \in Sets : disk[i] = "full" /\ e.disk[i] # "full" THEN "a data set that was present is lost"
       ELSE IF \E i \in Sets : disk[i] = "full" /\ e.asked[i] > 0 THEN "a data set that is present is fetched again"
       ELSE IF \E i \in Sets : disk[i] = "none" /\ e.asked[i] > 1 THEN "a data set is fetched more than once in a run"
       ELSE IF \E i \in Sets : disk[i] = "none" /\ e.asked[i] = 0 /\ e.plan[i] \notin {"refused"}
            THEN "a missing data set is not fetched"
       ELSE IF \E i \in Sets : e.disk[i] \notin May(i, e) THEN "a data set that was delivered is not obtained"
       ELSE IF e.failed # (\E i \in Sets : e.disk[i] = "none") THEN
            (IF e.failed THEN "failure is reported although every data set is present"
             ELSE "a data set is missing but no failure is reported")
       ELSE ""
    [] e.t = "crash" ->
       IF \E i \in Sets : e.disk[i] = "partial" THEN "an interrupted run leaves an incomplete data set under its final name"
       ELSE IF \E i \in Sets : disk[i] = "full" /\ e.disk[i] # "full" THEN "a data set that was present is lost"
       ELSE IF \E i \in Sets : disk[i] = "full" /\ e.asked[i] > 0 THEN "a data set that is present is fetched again"
       ELSE ""
    [] e.t = "remove" -> ""
    [] OTHER -> "unknown event"
Apply(e) == cfg' = cfg /\ disk' = IF e.t = "remove" THEN [disk EXCEPT ![e.i] = "none"] ELSE e.disk
WhyEnd == ""
=============================================================================
