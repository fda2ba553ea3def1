----------------------------- MODULE LocalWind -----------------------------
(* Local wind speeds: the regional gust at a pixel times the multiplier of    *)
(* the sector the wind comes from; along a time series the multipliers of the *)
(* two nearest of eight directions, weighted by nearness.  Directions in      *)
(* 1/1000 degree, speeds and multipliers in 1/1000.  Threads use an open      *)
(* raster one at a time.                                                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES cfg, inside, done
vars == <<cfg, inside, done>>
InitWith(c) == cfg = c /\ inside = <<>> /\ done = {}

Abs(x) == IF x < 0 THEN -x ELSE x
Circle == 360000
\* 1 is north, 2 north-east, ..., 8 north-west
Sector(b) == (((b + 22500) \div 45000) % 8) + 1
Sectors(b) == {Sector((b + d + Circle) % Circle) : d \in {-1, 0, 1}}
\* local is speed times multiplier
Product(l, g, m) == Abs(l * 1000 - g * m) <= cfg.tol + (g \div 50) + 2 * (m \div 2)
PixelWhy(q) ==
  IF q.g < q.lo - 2 \/ q.g > q.hi + 2 THEN "the regional wind at a pixel is not that of its neighbourhood"
  ELSE IF ~\E s \in Sectors(q.b) : Product(q.l, q.g, q.m[s])
  THEN "a local wind is not the regional wind times the multiplier of its direction" ELSE ""
\* multiplier of direction b between its two neighbours
Between(b, m) == LET k == (b \div 45000) % 8 IN
                 LET f == b % 45000 IN
                 (m[k + 1] * (45000 - f) + m[((k + 1) % 8) + 1] * f) \div 45000
RowWhy(q) ==
  IF Abs(q.l * 10 - ((q.g * Between(q.b, q.m)) \div 100)) > 100 + (q.g \div 40) THEN "a local wind of a series does not have the multipliers next to its direction"
  ELSE ""
First(S) == IF S = {} THEN "" ELSE CHOOSE w \in S : TRUE

Why(e) ==
  CASE e.t = "enter" -> IF \E i \in DOMAIN inside : inside[i].ds = e.ds /\ inside[i].thr # e.thr
                        THEN "two threads use a raster at once" ELSE ""
    [] e.t = "leave" -> IF \E i \in DOMAIN inside : inside[i] = [thr |-> e.thr, ds |-> e.ds] THEN "" ELSE "malformed trace"
    [] e.t = "ended" -> IF e.how = "ok" THEN "" ELSE IF e.how = "hang" THEN "the calculation does not end" ELSE "the calculation fails"
    [] e.t = "out" -> IF Len(e.px) # cfg.n THEN "the result does not have one value for each pixel"
                      ELSE First({PixelWhy(e.px[i]) : i \in DOMAIN e.px} \ {""})
    [] e.t = "rows" -> IF Len(e.rows) # cfg.n THEN "a series of local winds does not have the length of the series"
                       ELSE First({RowWhy(e.rows[i]) : i \in DOMAIN e.rows} \ {""})
    [] e.t = "top" -> IF \E i \in DOMAIN e.rows : e.rows[i].l > e.l + 1 THEN "a local maximum is not the largest of its series"
                      ELSE IF ~\E i \in DOMAIN e.rows : Abs(e.rows[i].l - e.l) <= 1 THEN "a local maximum is not in its series" ELSE ""
    [] OTHER -> "unknown event"
RECURSIVE Without(_, _)
Without(s, x) == IF s = <<>> THEN <<>> ELSE IF Head(s) = x THEN Tail(s) ELSE <<Head(s)>> \o Without(Tail(s), x)
Apply(e) ==
  CASE e.t = "enter" -> inside' = Append(inside, [thr |-> e.thr, ds |-> e.ds]) /\ UNCHANGED <<cfg, done>>
    [] e.t = "leave" -> inside' = Without(inside, [thr |-> e.thr, ds |-> e.ds]) /\ UNCHANGED <<cfg, done>>
    [] OTHER -> done' = done \union {e.t} /\ UNCHANGED <<cfg, inside>>
WhyEnd == IF "ended" \in done /\ ("out" \in done \/ "rows" \in done) THEN "" ELSE "no result"
=============================================================================
