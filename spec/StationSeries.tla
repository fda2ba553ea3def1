--------------------------- MODULE StationSeries ---------------------------
(* Time series of wind and pressure at stations.  At every time step of a     *)
(* storm in the domain the wind field of a window around the storm (or of the *)
(* whole domain) is known on a grid; a station within the window has the      *)
(* values of its nearest grid point, any other station has no wind.           *)
(* Positions are in 1/100000 of a degree, values in 1/100 of their unit.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES cfg,    \* st: stations [x, y], storms: number of storms, tol
          steps,  \* steps[s]: time steps of storm s
          ser,    \* ser[k]: rows written for station k
          tops, lows   \* stations in the lists of maxima and minima
vars == <<cfg, steps, ser, tops, lows>>
InitWith(c) == /\ cfg = c
               /\ steps = [s \in 1..c.storms |-> <<>>]
               /\ ser = [k \in 1..Len(c.st) |-> <<>>]
               /\ tops = <<>>
               /\ lows = <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == Abs(a - b) <= cfg.tol
\* grid points nearest to v (two when it lies in the middle)
Nearest(axis, v) == LET m == {Abs(axis[i] - v) : i \in DOMAIN axis} IN
                    LET lo == CHOOSE a \in m : \A b \in m : a <= b IN
                    {i \in DOMAIN axis : Abs(axis[i] - v) <= lo + 2}
Within(k, e) == /\ cfg.st[k].x >= e.gx[1] /\ cfg.st[k].x <= e.gx[Len(e.gx)]
                /\ cfg.st[k].y >= e.gy[1] /\ cfg.st[k].y <= e.gy[Len(e.gy)]
Points(k, e) == {<<j, i>> : j \in Nearest(e.gy, cfg.st[k].y), i \in Nearest(e.gx, cfg.st[k].x)}
\* row r of station k records step e
Records(k, e, r) ==
  /\ r.time = e.time
  /\ IF Within(k, e)
     THEN \E q \in Points(k, e) : /\ Near(r.s, e.s[q[1]][q[2]]) /\ Near(r.u, e.u[q[1]][q[2]])
                                 /\ Near(r.v, e.v[q[1]][q[2]]) /\ Near(r.p, e.p[q[1]][q[2]])
     ELSE r.s = 0 /\ r.u = 0 /\ r.v = 0
\* the direction is the one the wind comes from
Direction(r) == r.s < 50 \/ (Abs(r.u * 1000 + r.s * r.sb) <= 4 * r.s + 3000 /\ Abs(r.v * 1000 + r.s * r.cb) <= 4 * r.s + 3000)
Windy(k, e) == Within(k, e) /\ \A q \in Points(k, e) : e.s[q[1]][q[2]] > cfg.tol
Calm(k, e) == Within(k, e) => \E q \in Points(k, e) : e.s[q[1]][q[2]] <= cfg.tol
Concerned == {s \in 1..cfg.storms : steps[s] # <<>>}
MustSeries(k) == \E s \in Concerned : \E i \in DOMAIN steps[s] : Windy(k, steps[s][i])
RECURSIVE Orders(_)
Orders(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<s>> \o o : o \in Orders(S \ {s})} : s \in S}
RECURSIVE Concat(_)
Concat(o) == IF o = <<>> THEN <<>> ELSE steps[Head(o)] \o Concat(Tail(o))
Matches(k, rows) == \E o \in Orders(Concerned) :
  LET all == Concat(o) IN Len(all) = Len(rows) /\ \A i \in DOMAIN rows : Records(k, all[i], rows[i])
Total == LET o == CHOOSE o \in Orders(Concerned) : TRUE IN Len(Concat(o))
SameRow(a, b) == a.time = b.time /\ a.s = b.s /\ a.u = b.u /\ a.v = b.v /\ a.p = b.p

Why(e) ==
  CASE e.t = "step" -> IF Len(e.s) = Len(e.gy) /\ \A j \in DOMAIN e.s : Len(e.s[j]) = Len(e.gx) THEN "" ELSE "malformed step"
    [] e.t = "series" ->
         IF e.st \notin 1..Len(cfg.st) \/ ser[e.st] # <<>> THEN "a series belongs to no station or a station has two"
         ELSE IF \E i \in DOMAIN e.rows : e.rows[i].x # cfg.st[e.st].x \/ e.rows[i].y # cfg.st[e.st].y THEN "a series has the position of another station"
         ELSE IF Len(e.rows) # Total THEN "a series does not have one entry for each time step"
         ELSE IF ~Matches(e.st, e.rows) THEN "a series does not hold the values at its station"
         ELSE IF \E i \in DOMAIN e.rows : ~Direction(e.rows[i]) THEN "a direction is not the one the wind comes from"
         ELSE ""
    [] e.t = "top" -> \* row of the list of maxima
         IF e.st \notin 1..Len(cfg.st) \/ (\E i \in DOMAIN tops : tops[i] = e.st) THEN "a maximum belongs to no station or a station has two"
         ELSE LET rows == ser[e.st] IN
              IF ~\E i \in DOMAIN rows : SameRow(rows[i], e.row) THEN "a maximum is not in the series of its station"
              ELSE IF \E i \in DOMAIN rows : rows[i].s > e.row.s THEN "a maximum is not the largest of its series" ELSE ""
    [] e.t = "low" ->
         IF e.st \notin 1..Len(cfg.st) \/ (\E i \in DOMAIN lows : lows[i] = e.st) THEN "a minimum belongs to no station or a station has two"
         ELSE LET rows == ser[e.st] IN
              IF ~\E i \in DOMAIN rows : SameRow(rows[i], e.row) THEN "a minimum is not in the series of its station"
              ELSE IF \E i \in DOMAIN rows : rows[i].p < e.row.p THEN "a minimum is not the smallest of its series" ELSE ""
    [] e.t = "plots" -> \* stations with a plot
         IF {e.st[i] : i \in DOMAIN e.st} = {k \in DOMAIN ser : ser[k] # <<>>} THEN "" ELSE "a series is plotted under another name or not at all"
    [] OTHER -> "unknown event"
Apply(e) ==
  CASE e.t = "step" -> steps' = [steps EXCEPT ![e.storm] = Append(@, e)] /\ UNCHANGED <<cfg, ser, tops, lows>>
    [] e.t = "series" -> ser' = [ser EXCEPT ![e.st] = e.rows] /\ UNCHANGED <<cfg, steps, tops, lows>>
    [] e.t = "top" -> tops' = Append(tops, e.st) /\ UNCHANGED <<cfg, steps, ser, lows>>
    [] e.t = "low" -> lows' = Append(lows, e.st) /\ UNCHANGED <<cfg, steps, ser, tops>>
    [] OTHER -> UNCHANGED vars
WhyEnd ==
  IF \E k \in DOMAIN ser : ser[k] = <<>> /\ MustSeries(k) THEN "a station within the wind field has no series"
  ELSE IF \E k \in DOMAIN ser : ser[k] # <<>> /\ ~\E s \in Concerned : \E i \in DOMAIN steps[s] : Within(k, steps[s][i])
  THEN "a station outside the domain has a series"
  ELSE LET have == {k \in DOMAIN ser : ser[k] # <<>>} IN
       IF {tops[i] : i \in DOMAIN tops} # have \/ {lows[i] : i \in DOMAIN lows} # have THEN "the extremes of a station are missing" ELSE ""
=============================================================================
