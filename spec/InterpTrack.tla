---------------------------- MODULE InterpTrack ----------------------------
(* Interpolation of tracks to a time step.  A track is a list of records      *)
(* [t, x, y, p, e, r, w]: minutes, 1/10000 degrees, 1/100 hPa (-1: missing),  *)
(* 1/100 km and 1/100 m/s (-1: not given).  Result: the points of every       *)
(* track, in order.                                                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES cfg,   \* tracks: sequence of [recs, linear]; delta; tol
          cur,   \* number of the track the points belong to
          pts    \* its points so far
vars == <<cfg, cur, pts>>
InitWith(c) == cfg = c /\ cur = 0 /\ pts = <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
Recs == cfg.tracks[cur].recs
First(r) == r[1]
Last(r) == r[Len(r)]
\* record at or before time t, and the next one
Before(r, t) == CHOOSE i \in DOMAIN r : r[i].t <= t /\ \A j \in DOMAIN r : r[j].t <= t => j <= i
\* v lies on the line from (t0, a) to (t1, b) at time t
OnLine(v, t, t0, a, t1, b, tol) == Abs((v - a) * (t1 - t0) - (b - a) * (t - t0)) <= tol * (t1 - t0)
\* value f of the records at time t
Linear(r, t, v, f(_), tol) ==
  LET i == Before(r, t) IN
  IF r[i].t = t THEN Abs(v - f(r[i])) <= tol
  ELSE OnLine(v, t, r[i].t, f(r[i]), r[i + 1].t, f(r[i + 1]), tol)
X(r) == r.x
Y(r) == r.y
P(r) == r.p
E(r) == r.e
R(r) == r.r
W(r) == r.w
Valid(r) == SelectSeq(r, LAMBDA q : q.p # -1)
\* pressure v at time t
Pressure(r, t, v) ==
  LET w == Valid(r) IN
  IF Len(w) = 0 THEN v = -1
  ELSE IF Len(w) = 1 THEN Abs(v - w[1].p) <= 1 \/ (v = -1 /\ t # w[1].t)
  ELSE IF t < First(w).t \/ t > Last(w).t THEN v = -1
  ELSE \/ v # -1 /\ Linear(w, t, v, P, 1)
       \* next to a missing record the pressure may be missing
       \/ v = -1 /\ LET i == Before(r, t) IN
            IF r[i].t = t THEN r[i].p = -1 ELSE r[i].p = -1 \/ r[i + 1].p = -1
\* wind speed v at time t, from the records that have a pressure
Wind(r, t, v) ==
  LET w == Valid(r) IN
  IF v = -1 \/ r[1].w = -1 \/ Len(w) = 0 THEN TRUE
  ELSE IF Len(w) = 1 THEN t # w[1].t \/ Abs(v - w[1].w) <= 1
  ELSE t < First(w).t \/ t > Last(w).t \/ Linear(w, t, v, W, 1)
Straight(e) == cfg.tracks[cur].linear
AtRecord(e) == \E i \in DOMAIN Recs : Recs[i].t = e.time
Done == cur = 0 \/ (pts # <<>> /\ Last(pts).time = Last(Recs).t)
\* forward speed v over the time to the next point, d away (distances that a
\* plane approximates; splines through irregular times can swing far away)
SpeedOk(a, b) == b.time <= a.time \/ a.d > 10000 \/ Abs(a.y) > 600000 \/ Abs(a.v * (b.time - a.time) - 60 * a.d) <= (a.v * (b.time - a.time)) \div 100 + 120
Turn(a, b) == LET d == Abs(a - b) IN IF d > 1800 THEN 3600 - d ELSE d
\* direction b of the motion to the next point, which lies in direction z
TowardsOk(a) == a.d < 100 \/ a.d > 10000 \/ Abs(a.y) > 600000 \/ (a.b \in 0..3600 /\ Turn(a.b, a.z) <= 15)

WhyPoint(e) ==
  IF cur = 0 THEN "a point belongs to no track"
  ELSE IF pts = <<>> /\ e.time # First(Recs).t THEN "the track does not start with the first record"
  ELSE IF pts # <<>> /\ e.time <= Last(pts).time THEN "times do not increase"
  ELSE IF e.time > Last(Recs).t THEN "the track goes on after the last record"
  ELSE IF Len(Recs) > 1 /\ pts # <<>> /\ e.time # Last(Recs).t /\ e.time - Last(pts).time # cfg.delta THEN "a time step has another length"
  ELSE IF Len(Recs) > 1 /\ pts # <<>> /\ e.time - Last(pts).time >= 2 * cfg.delta THEN "the last time step is too long"
  ELSE IF e.cal # e.time THEN "the date columns name another time"
  ELSE IF e.age # e.time - First(Recs).t THEN "the age of the storm is wrong"
  ELSE IF AtRecord(e) /\ ~(Linear(Recs, e.time, e.x, X, cfg.tol) /\ Linear(Recs, e.time, e.y, Y, cfg.tol)) THEN "a record is not passed through"
  ELSE IF Straight(e) /\ ~(Linear(Recs, e.time, e.x, X, cfg.tol) /\ Linear(Recs, e.time, e.y, Y, cfg.tol)) THEN "a position is not between its records"
  ELSE IF ~Pressure(Recs, e.time, e.p) THEN "the pressure is wrong"
  ELSE IF ~Linear(Recs, e.time, e.e, E, 1) THEN "the environmental pressure is wrong"
  ELSE IF ~Linear(Recs, e.time, e.r, R, 1) THEN "the radius of maximum wind is wrong"
  ELSE IF Len(Recs) > 1 /\ pts # <<>> /\ ~SpeedOk(Last(pts), e) THEN "the forward speed is not the distance over the time"
  ELSE IF Len(Recs) > 1 /\ pts # <<>> /\ ~TowardsOk(Last(pts)) THEN "the direction of motion does not lead to the next point"
  ELSE IF Len(Recs) > 1 /\ e.time = Last(Recs).t /\ pts # <<>> /\ Turn(e.b, Last(pts).b) > 1 THEN "the direction of motion changes at the end"
  ELSE IF e.n # -1 /\ e.n # cfg.tracks[cur].id[1] THEN "a point has the number of another storm"
  ELSE IF Len(Recs) > 1 /\ ~Wind(Recs, e.time, e.w) THEN "the wind speed is wrong"
  ELSE ""
Why(e) ==
  CASE e.t = "track" -> IF e.k # cur + 1 \/ e.k > Len(cfg.tracks) THEN "a track is missing or out of order"
                        ELSE IF ~Done THEN "the track ends before the last record"
                        ELSE IF e.id # cfg.tracks[e.k].id THEN "a track has the number of another" ELSE ""
    [] e.t = "point" -> WhyPoint(e)
    [] OTHER -> "unknown event"
Apply(e) ==
  CASE e.t = "track" -> cur' = e.k /\ pts' = <<>> /\ UNCHANGED cfg
    [] e.t = "point" -> pts' = Append(pts, e) /\ UNCHANGED <<cfg, cur>>
    [] OTHER -> UNCHANGED vars
WhyEnd == IF cur # Len(cfg.tracks) THEN "a track is missing" ELSE IF ~Done THEN "the track ends before the last record" ELSE ""
=============================================================================
