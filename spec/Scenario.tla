------------------------------ MODULE Scenario ------------------------------
(* A run for single events: the storms of an input file are interpolated to   *)
(* five minutes, the wind of every storm is calculated in a domain around it  *)
(* (or in the configured one), stations, impact and map follow.               *)
(* Positions are 1/100 degree, times minutes, winds 1/100 m/s.                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES cfg,     \* storms: seq of [t0, t1, id]; region: [given, x0, x1, y0, y1];
                   \* margin, step; stations: [x, y] seq; impact: "no"/"yes"/"fails"; plot, series, good: BOOLEAN
          tracks,  \* interpolated storms, in order
          gusts,   \* wind fields: storm -> event
          done     \* what followed: set of <<kind, number>>
vars == <<cfg, tracks, gusts, done>>
InitWith(c) == cfg = c /\ tracks = <<>> /\ gusts = <<>> /\ done = {}
Abs(v) == IF v < 0 THEN -v ELSE v
Delta == 5
Storms == DOMAIN cfg.storms
Region == cfg.region
\* steps of a storm after interpolation: every five minutes and the end
Steps(s) == LET d == s.t1 - s.t0 IN IF s.single THEN 1 ELSE IF d < Delta THEN 2 ELSE d \div Delta + 1
\* the storm comes near the region
Near(k) == \/ ~Region.given
           \/ LET b == tracks[k].box IN
              /\ Region.x0 - cfg.margin <= b.x1 /\ b.x0 <= Region.x1 + cfg.margin
              /\ Region.y0 - cfg.margin <= b.y1 /\ b.y0 <= Region.y1 + cfg.margin
\* on the border of the surroundings, either is right
Border(k) == Region.given /\ LET b == tracks[k].box IN
              \/ Abs(Region.x0 - cfg.margin - b.x1) <= 1 \/ Abs(Region.x1 + cfg.margin - b.x0) <= 1
              \/ Abs(Region.y0 - cfg.margin - b.y1) <= 1 \/ Abs(Region.y1 + cfg.margin - b.y0) <= 1
\* [lo, hi] of a grid axis reaches margin around [a, b], and not much further
Reaches(lo, hi, a, b) == lo <= a - cfg.margin + 1 /\ hi >= b + cfg.margin - 1
Tight(lo, hi, a, b, slack) == lo >= a - cfg.margin - slack /\ hi <= b + cfg.margin + slack + cfg.step
Covered(e) ==
  IF Region.given
  THEN Reaches(e.x0, e.x1, Region.x0, Region.x1) /\ Reaches(e.y0, e.y1, Region.y0, Region.y1)
  ELSE LET b == tracks[e.k].box IN Reaches(e.x0, e.x1, b.x0, b.x1) /\ Reaches(e.y0, e.y1, b.y0, b.y1)
NotTooFar(e) ==
  IF Region.given
  THEN Tight(e.x0, e.x1, Region.x0, Region.x1, 1) /\ Tight(e.y0, e.y1, Region.y0, Region.y1, 1)
  ELSE LET b == tracks[e.k].box IN Tight(e.x0, e.x1, b.x0, b.x1, 101) /\ Tight(e.y0, e.y1, b.y0, b.y1, 101)
Has(k) == \E i \in DOMAIN gusts : gusts[i].k = k
AllWinds == Len(tracks) = Len(cfg.storms) /\ \A k \in Storms : Border(k) \/ (Near(k) = Has(k))
Files == Len(gusts)
ImpactDone == cfg.impact = "no" \/ Cardinality({d \in done : d[1] = "impact"}) = Files

WhyTrack(e) ==
  IF e.k # Len(tracks) + 1 \/ e.k > Len(cfg.storms) THEN "a storm is missing or out of order"
  ELSE LET s == cfg.storms[e.k] IN
  IF e.id # s.id THEN "a storm has the number of another"
  ELSE IF e.first # s.t0 \/ e.last # s.t1 THEN "a storm begins or ends at another time"
  ELSE IF e.n # Steps(s) THEN "a storm does not have a step every five minutes"
  ELSE ""
WhyGust(e) ==
  IF e.k \notin DOMAIN tracks THEN "a wind field belongs to no storm"
  ELSE IF Has(e.k) THEN "a storm has two wind fields"
  ELSE IF ~Near(e.k) /\ ~Border(e.k) THEN "a storm far from the region has a wind field"
  ELSE IF ~Covered(e) THEN "the domain does not surround the storm or the region"
  ELSE IF ~NotTooFar(e) THEN "the domain is larger than it has to be"
  ELSE IF e.step # cfg.step THEN "the grid has another resolution"
  ELSE IF ~e.blows THEN "no wind in a storm that crosses the domain"
  ELSE IF e.other > 1 THEN "the wind depends on the domain"
  ELSE IF e.alone > 1 THEN "the wind depends on the other storms of the file"
  ELSE ""
Why(e) ==
  CASE e.t = "track"  -> WhyTrack(e)
    [] e.t = "gust"   -> WhyGust(e)
    [] e.t = "series" -> IF ~AllWinds THEN "a wind field is missing"
                         ELSE IF ~cfg.series THEN "a time series that was not asked for"
                         ELSE IF <<"series", e.st>> \in done THEN "a station has two time series"
                         ELSE IF e.st \notin DOMAIN cfg.stations THEN "a time series belongs to no station"
                         ELSE IF e.cell > 0 /\ ~e.has THEN "a station with wind has no time series"
                         ELSE IF e.calm /\ e.has THEN "a time series of a station without wind"
                         ELSE IF Abs(e.top - e.cell) > 1 THEN "the highest wind of a station is not that of the wind field"
                         ELSE IF e.has /\ ~e.drawn THEN "a time series is not drawn"
                         ELSE ""
    [] e.t = "impact" -> IF ~AllWinds THEN "a wind field is missing"
                         ELSE IF cfg.impact = "no" THEN "an impact that was not asked for"
                         ELSE IF <<"impact", e.k>> \in done THEN "the impact of a storm is calculated twice"
                         ELSE IF ~Has(e.k) THEN "the impact of a storm without wind field"
                         ELSE IF ~e.same THEN "the impact is of other exposure or saved elsewhere"
                         ELSE ""
    [] e.t = "map"    -> IF ~AllWinds \/ ~ImpactDone THEN "the map is drawn too early"
                         ELSE IF ~cfg.plot THEN "a map that was not asked for"
                         ELSE IF <<"map", 1>> \in done THEN "two maps"
                         ELSE IF ~e.match THEN "the map shows other values than the wind field"
                         ELSE IF ~e.whole THEN "the map does not show the whole domain"
                         ELSE ""
    [] e.t = "end"    -> IF e.ok /\ ~cfg.good THEN "a failure is not reported"
                         ELSE IF ~e.ok /\ cfg.good THEN "the run fails"
                         ELSE IF ~e.ok THEN ""
                         ELSE IF ~AllWinds THEN "a wind field is missing"
                         ELSE IF ~ImpactDone THEN "the impact of a storm is missing"
                         ELSE IF cfg.plot /\ <<"map", 1>> \notin done THEN "the map is missing"
                         ELSE IF cfg.series /\ \E q \in DOMAIN cfg.stations : <<"series", q>> \notin done THEN "a time series is missing"
                         ELSE ""
    [] OTHER -> "unknown event"
Apply(e) ==
  CASE e.t = "track"  -> tracks' = Append(tracks, e) /\ UNCHANGED <<cfg, gusts, done>>
    [] e.t = "gust"   -> gusts' = Append(gusts, e) /\ UNCHANGED <<cfg, tracks, done>>
    [] e.t = "series" -> done' = done \cup {<<"series", e.st>>} /\ UNCHANGED <<cfg, tracks, gusts>>
    [] e.t = "impact" -> done' = done \cup {<<"impact", e.k>>} /\ UNCHANGED <<cfg, tracks, gusts>>
    [] e.t = "map"    -> done' = done \cup {<<"map", 1>>} /\ UNCHANGED <<cfg, tracks, gusts>>
    [] e.t = "end"    -> done' = done \cup {<<"end", 1>>} /\ UNCHANGED <<cfg, tracks, gusts>>
    [] OTHER -> UNCHANGED vars
WhyEnd == IF <<"end", 1>> \notin done THEN "the run does not end" ELSE ""
=============================================================================
