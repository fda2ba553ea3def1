------------------------------- MODULE Track -------------------------------
(* One simulated storm, point by point.  Units: time in seconds, degrees and *)
(* hectopascals in thousandths, kilometres in tenths.                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES cfg,    \* x0,x1,y0,y1 domain; dt; maxn; tol; ids: identifiers already used
          n,      \* points so far
          t,      \* age at the last point
          ids,    \* identifiers of finished storms
          open    \* identifier of the storm being followed, -1 when none
vars == <<cfg, n, t, ids, open>>

InitWith(c) == cfg = c /\ n = 0 /\ t = 0 /\ ids = {} /\ open = -1

MinAge == 43200
MinSize == 50
MaxSize == 5000
MaxFirstSize == 1000

Inside(e) == e.x >= cfg.x0 /\ e.x <= cfg.x1 /\ e.y >= cfg.y0 /\ e.y <= cfg.y1

WhyPoint(e) ==
  IF open = -1 THEN "machinery: point outside a storm"
  ELSE IF e.bad THEN "a value is not a number"
  ELSE IF n = 0 /\ e.age # 0 THEN "the first point is not at age zero"
  ELSE IF n > 0 /\ e.age # t + cfg.dt THEN "time steps are not regular"
  ELSE IF e.clock # e.age THEN "dates do not advance with the age"
  ELSE IF n >= cfg.maxn THEN "the storm exceeds the configured number of time steps"
  ELSE IF ~Inside(e) THEN IF n = 0 THEN "genesis outside the domain" ELSE "a position outside the domain"
  ELSE IF n = 0 /\ ~e.origin THEN "genesis is not a point the origin distribution (or the caller) allows"
  ELSE IF e.p >= e.env THEN "central pressure not below the environment"
  ELSE IF e.envoff > cfg.envtol THEN "environmental pressure is not that of the storm's own place and time"
  ELSE IF n > 0 /\ e.off > cfg.tol THEN "the position does not follow from the recorded speed and bearing"
  ELSE IF e.speed < 0 THEN "negative speed"
  ELSE IF e.bear < 0 \/ e.bear > 360000 THEN "bearing outside 0..360"
  ELSE IF e.r < MinSize \/ e.r > MaxSize THEN "size outside the accepted range"
  ELSE IF n = 0 /\ e.r > MaxFirstSize THEN "initial size above 100 km"
  ELSE ""

Why(e) ==
  CASE e.t = "storm" -> IF open # -1 THEN "machinery: nested storms"
                        ELSE IF e.id \in ids THEN "two storms of a simulation share an identifier"
                        ELSE IF e.sim # cfg.sim THEN "a storm carries another simulation's number"
                        ELSE ""
    [] e.t = "point" -> WhyPoint(e)
    [] e.t = "close" -> IF n = 0 THEN "an empty storm"
                        ELSE IF t < MinAge THEN "a storm shorter than 12 hours"
                        ELSE ""
    [] e.t = "count" -> IF Cardinality(ids) # e.n THEN "wrong number of storms" ELSE ""
    [] e.t = "fail" -> "the track generation fails"
    [] OTHER -> "unknown event"

Apply(e) ==
  CASE e.t = "storm" -> open' = e.id /\ n' = 0 /\ t' = 0 /\ UNCHANGED <<cfg, ids>>
    [] e.t = "point" -> n' = n + 1 /\ t' = e.age /\ UNCHANGED <<cfg, ids, open>>
    [] e.t = "close" -> ids' = ids \cup {open} /\ open' = -1 /\ n' = 0 /\ t' = 0 /\ UNCHANGED cfg
    [] OTHER -> UNCHANGED vars

WhyEnd == IF open # -1 THEN "machinery: storm left open" ELSE ""
=============================================================================
