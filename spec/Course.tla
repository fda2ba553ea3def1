------------------------------- MODULE Course -------------------------------
(* How a simulated storm develops from step to step: the statistics of the    *)
(* cell it is in, those for land or for sea, and the fading over land.        *)
(* Positions are 1/1000000 degree, times seconds, pressures 1/1000 hPa,       *)
(* speeds 1/1000 km/h, directions 1/1000 degree, deficits 1/100 hPa.          *)
EXTENDS Naturals, Integers, Sequences, TLC

VARIABLES cfg,   \* x0, x1, y0, y1, space, cols; cells: seq of means (sv, sb, sr: sea; lv, lb: land; low);
                 \* ks, kl: the spread is zero over sea, over land; boxes: land; edge; maxn; twin; calm: lowest pressure without storms
          dt,    \* time step of the storm being followed
          n,     \* points so far
          last,  \* the last point
          dd,    \* deficits of the last two steps of this stay on land (the first one is that at sea)
          falls, \* landfalls of this storm: deficit (d) and speed (v) before, share of the deficit left a step later (r, 1/10000)
          ref    \* deficits by age of the first storm, for storms that differ in their time step only
vars == <<cfg, dt, n, last, dd, falls, ref>>
InitWith(c) == cfg = c /\ dt = 0 /\ n = 0 /\ last = <<>> /\ dd = <<>> /\ falls = <<>> /\ ref = <<>>

Abs(v) == IF v < 0 THEN -v ELSE v
Turn(a, b) == LET d == (a - b) % 360000 IN IF d > 180000 THEN 360000 - d ELSE d
\* land is where one of the boxes is; within `edge` of a shore it is open
Lon(e) == e.x % 360000000
Deep(b, e) == /\ Lon(e) > b.x0 + cfg.edge /\ Lon(e) < b.x1 - cfg.edge
              /\ e.y > b.y0 + cfg.edge /\ e.y < b.y1 - cfg.edge
Clear(b, e) == \/ Lon(e) < b.x0 - cfg.edge \/ Lon(e) > b.x1 + cfg.edge
               \/ e.y < b.y0 - cfg.edge \/ e.y > b.y1 + cfg.edge
Ground(e) == IF \E i \in DOMAIN cfg.boxes : Deep(cfg.boxes[i], e) THEN "land"
             ELSE IF \A i \in DOMAIN cfg.boxes : Clear(cfg.boxes[i], e) THEN "sea" ELSE "shore"
\* cells are numbered from the northwest, row by row
Cell(e) == cfg.cells[((cfg.y1 - e.y) \div cfg.space) * cfg.cols + ((e.x - cfg.x0) \div cfg.space) + 1]
Inside(e) == /\ e.x > cfg.x0 + 10000 /\ e.x < cfg.x1 - 10000
             /\ e.y > cfg.y0 + 10000 /\ e.y < cfg.y1 - 10000
\* pressure after a step over sea; a storm much deeper than any observed one fills
Rise(c) == IF n = 1 THEN 0 ELSE (c.sr * (dt \div 60)) \div 60
SeaWant(c) == IF last.p + Rise(c) < c.low THEN last.p + Abs(Rise(c)) ELSE last.p + Rise(c)
SeaRight(c, p) == \/ Abs(p - SeaWant(c)) <= 2
                  \/ Abs(last.p + Rise(c) - c.low) <= 3 /\ Abs(p - last.p) <= Abs(Rise(c)) + 2
\* three deficits one time step apart, fading at one rate
Geometric(a, b, c) == Abs(a * c - b * b) <= 2 * (a + 2 * b + c) + 4
Deficit(env, p) == (env - p) \div 10
Fade(e) == Deficit(last.env, e.p)
Elsewhere(e) == cfg.twin /\ \E i \in DOMAIN ref : ref[i].age = e.age /\ Abs(ref[i].d - Fade(e)) > 3

\* a landfall from clear sea that tells the rate of fading well
Landfall(e) == n > 0 /\ Ground(e) = "land" /\ Ground(last) = "sea" /\ dd[1] >= 1000 /\ Fade(e) * 2 > dd[1]
Left(e) == (Fade(e) * 10000) \div dd[1]
\* of two landfalls of one storm with the same deficit the faster one fades faster
SpeedIgnored(e) ==
  Landfall(e) /\ \E i \in DOMAIN falls :
    /\ Abs(falls[i].d - dd[1]) <= 300
    /\ \/ last.v >= falls[i].v + 8000 /\ Left(e) > falls[i].r - 40
       \/ last.v <= falls[i].v - 8000 /\ Left(e) < falls[i].r + 40

WhyPoint(e) ==
  IF e.bad THEN "a value is not a number"
  ELSE IF n = 0 THEN ""
  ELSE LET g == Ground(e)
           c == Cell(e)
           known == (g = "sea" /\ cfg.ks) \/ (g = "land" /\ cfg.kl)
           v == IF n = 1 THEN last.v ELSE IF g = "sea" THEN c.sv ELSE c.lv
           b == IF n = 1 THEN last.b ELSE IF g = "sea" THEN c.sb ELSE c.lb
  IN IF known /\ Abs(e.v - v) > 3
     THEN "the speed is not that of the cell, over " \o g
  ELSE IF known /\ Turn(e.b, b) > 30
     THEN "the direction is not that of the cell, over " \o g
  ELSE IF g = "sea" /\ cfg.ks /\ ~SeaRight(c, e.p)
     THEN "the pressure does not change at the rate of the cell"
  ELSE IF g = "land" /\ Len(dd) = 2 /\ ~Geometric(dd[1], dd[2], Fade(e))
     THEN "the deficit does not fade steadily with the time since landfall"
  ELSE IF g = "land" /\ Elsewhere(e)
     THEN "how fast the storm fades depends on the time step"
  ELSE IF SpeedIgnored(e)
     THEN "a storm that is faster at landfall does not fade faster"
  ELSE IF e.env - e.p < (IF e.age > 43200 THEN 5000 ELSE 2000) - 2
     THEN "the storm goes on although its deficit is used up"
  ELSE ""

\* the storm ends although the next step, at e, is inside and leaves a clear deficit
Early(e) ==
  /\ n >= 2 /\ n < cfg.maxn /\ Inside(e)
  /\ LET g == Ground(e) IN
     \/ g = "sea" /\ cfg.ks /\ last.env - SeaWant(Cell(e)) > 15000 /\ SeaWant(Cell(e)) < cfg.calm
     \/ g = "land" /\ Len(dd) = 2 /\ dd[1] > 0 /\ LET d == (dd[2] * dd[2]) \div dd[1] IN d > 1500 /\ last.env - 10 * d < cfg.calm

Why(e) ==
  CASE e.t = "storm" -> ""
    [] e.t = "point" -> WhyPoint(e)
    [] e.t = "end"   -> IF Early(e) THEN "the storm ends inside the domain with its deficit left" ELSE ""
    [] e.t = "place" -> IF (Ground(e) = "land" /\ ~e.land) \/ (Ground(e) = "sea" /\ e.land) THEN "land and sea are confused" ELSE ""
    [] e.t = "fail"  -> "the track generation fails"
    [] OTHER -> "unknown event"

Apply(e) ==
  CASE e.t = "storm" -> dt' = e.dt /\ n' = 0 /\ last' = <<>> /\ dd' = <<>> /\ falls' = <<>> /\ UNCHANGED <<cfg, ref>>
    [] e.t = "point" ->
         /\ n' = n + 1 /\ last' = e
         /\ dd' = IF n = 0 \/ Ground(e) = "sea" THEN <<Deficit(e.env, e.p)>>
                  ELSE IF Ground(e) = "shore" THEN <<>>
                  ELSE IF Len(dd) = 2 THEN <<dd[2], Fade(e)>> ELSE Append(dd, Fade(e))
         /\ falls' = IF Landfall(e) THEN Append(falls, [d |-> dd[1], v |-> last.v, r |-> Left(e)]) ELSE falls
         /\ ref' = IF cfg.twin /\ n > 0 /\ dt = cfg.dt1 THEN Append(ref, [age |-> e.age, d |-> Fade(e)]) ELSE ref
         /\ UNCHANGED <<cfg, dt>>
    [] OTHER -> UNCHANGED vars

WhyEnd == ""
=============================================================================
