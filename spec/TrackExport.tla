----------------------------- MODULE TrackExport -----------------------------
(* Tracks as features of a shape file: one point or one line for every record *)
(* or one line for every storm, each with the values of its record or storm.  *)
(* Positions are 1/1000000 degree, values have the decimals of their column.  *)
EXTENDS Naturals, Integers, Sequences, TLC

VARIABLES cfg,   \* form: "point", "line" or "whole"; model: simulated storms (else observed ones);
                 \* slack: rounding of each column (0 for whole numbers); storms: seq of seq of [x, y, p (1/1000 hPa), a: values of the columns]
          i,     \* storm and
          j      \* record of the next feature
vars == <<cfg, i, j>>
InitWith(c) == cfg = c /\ i = 1 /\ j = 1

Abs(v) == IF v < 0 THEN -v ELSE v
Pos(r) == <<r.x, r.y>>
\* longitudes from 0 to 360: neighbours this far apart lie on both sides of Greenwich
Leap(a, b) == Abs(a[1] - b[1]) > 180000000
Category(p) == IF p < 930000 THEN 5 ELSE IF p < 955000 THEN 4 ELSE IF p < 970000 THEN 3
               ELSE IF p < 985000 THEN 2 ELSE IF p < 999000 THEN 1 ELSE 0
RECURSIVE Joined(_)
Joined(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Joined(Tail(q))
Across(part) == \E k \in 1..Len(part) - 1 : Leap(part[k], part[k + 1])
Cut(parts) == \E k \in 1..Len(parts) - 1 :
                Len(parts[k]) > 0 /\ Len(parts[k + 1]) > 0 /\ ~Leap(parts[k][Len(parts[k])], parts[k + 1][1])
Close(u, v) == Len(u) = Len(v) /\ \A k \in DOMAIN u : Abs(u[k] - v[k]) <= cfg.slack[k]
RECURSIVE Largest(_, _, _)
Largest(s, k, n) == IF n = 1 THEN s[1].a[k] ELSE LET m == Largest(s, k, n - 1) IN IF s[n].a[k] > m THEN s[n].a[k] ELSE m
RECURSIVE Lowest(_, _)
Lowest(s, n) == IF n = 1 THEN s[1].p ELSE LET m == Lowest(s, n - 1) IN IF s[n].p < m THEN s[n].p ELSE m
Values(r) == Append(r.a, Category(r.p))
\* a storm as a whole: that of its first record, or (observed) number, start, length, lowest pressure, strongest wind
Summary(s) == IF cfg.model THEN Values(s[1])
              ELSE SubSeq(s[1].a, 2, 7) \o <<Largest(s, 8, Len(s)), Lowest(s, Len(s)) \div 10, Largest(s, 14, Len(s))>>

WhyFeature(e) ==
  IF i > Len(cfg.storms) THEN "there are features of no record"
  ELSE LET s == cfg.storms[i] IN LET r == s[j] IN
  CASE cfg.form = "point" ->
         IF e.parts # <<<<Pos(r)>>>> THEN "a point is not where its record is"
         ELSE IF ~Close(e.v, Values(r)) THEN "a feature has other values than its record" ELSE ""
    [] cfg.form = "line" ->
         LET whole == Joined(e.parts) IN
         LET next == IF j < Len(s) THEN Pos(s[j + 1]) ELSE Pos(r) IN
         IF whole = <<>> \/ whole[1] # Pos(r) THEN "a line does not start at its record"
         ELSE IF \E k \in DOMAIN e.parts : Across(e.parts[k]) THEN "a line runs around the globe"
         ELSE IF ~Leap(Pos(r), next) /\ e.parts # <<<<Pos(r), next>>>> THEN "a line does not end at the next record"
         ELSE IF ~Close(e.v, Values(r)) THEN "a feature has other values than its record" ELSE ""
    [] OTHER ->
         IF Joined(e.parts) # [k \in DOMAIN s |-> Pos(s[k])] THEN "a line has not all positions of its storm in order"
         ELSE IF \E k \in DOMAIN e.parts : Across(e.parts[k]) THEN "a line runs around the globe"
         ELSE IF Cut(e.parts) THEN "a line is cut without need"
         ELSE IF ~Close(e.v, Summary(s)) THEN "a feature has other values than its storm" ELSE ""

Why(e) ==
  CASE e.t = "feature" -> WhyFeature(e)
    [] e.t = "end"     -> IF i <= Len(cfg.storms) THEN "records have no feature"
                          ELSE IF ~e.kept THEN "the export changes the tracks" ELSE ""
    [] e.t = "fail"    -> "the export fails"
    [] OTHER -> "unknown event"

Apply(e) ==
  /\ UNCHANGED cfg
  /\ IF e.t # "feature" \/ i > Len(cfg.storms) THEN UNCHANGED <<i, j>>
     ELSE IF cfg.form = "whole" \/ j = Len(cfg.storms[i]) THEN i' = i + 1 /\ j' = 1
     ELSE i' = i /\ j' = j + 1
WhyEnd == ""
=============================================================================
