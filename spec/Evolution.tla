------------------------------ MODULE Evolution ------------------------------
(* The recorded evolution of the wind field of one storm: a layer for every   *)
(* time step inside the region, each the window of wind around the storm at   *)
(* its place in the domain and nothing elsewhere, and the maximum wind field  *)
(* as the envelope of the layers.  Positions are 1/100 degree, times minutes, *)
(* speeds mm/s, pressures 1/10 Pa; -1 is "nothing".                           *)
EXTENDS Naturals, Integers, Sequences, TLC

VARIABLES cfg,   \* gx, gy: southwest corner; nx, ny; res; env: pressure without storm; times: of the steps inside the region
          steps, \* windows handed out: [time, x, y, w, h, g, u, v, p]
          k,     \* layers read
          top,   \* strongest gust of the layers so far, by cell (row by row from the southwest)
          low    \* lowest pressure
vars == <<cfg, steps, k, top, low>>
InitWith(c) == /\ cfg = c /\ steps = <<>> /\ k = 0
               /\ top = [n \in 1..c.nx * c.ny |-> 0] /\ low = [n \in 1..c.nx * c.ny |-> c.env]

Abs(v) == IF v < 0 THEN -v ELSE v
Cells == 1..cfg.nx * cfg.ny
Col(n) == (n - 1) % cfg.nx
Row(n) == (n - 1) \div cfg.nx
\* the value of a window at a cell of the domain
In(s, n) == LET a == Col(n) - (s.x - cfg.gx) \div cfg.res IN LET b == Row(n) - (s.y - cfg.gy) \div cfg.res IN
            a >= 0 /\ a < s.w /\ b >= 0 /\ b < s.h
At(s, f, n) == LET a == Col(n) - (s.x - cfg.gx) \div cfg.res IN LET b == Row(n) - (s.y - cfg.gy) \div cfg.res IN f[b * s.w + a + 1]
Same(s, f, e, n, none, tol) == IF In(s, n) THEN Abs(At(s, f, n) - e[n]) <= tol ELSE e[n] = none
\* the gust is the size of the wind, compared in cm/s
Gust(g, u, v) == LET G == g \div 10 IN LET U == Abs(u) \div 10 IN LET V == Abs(v) \div 10 IN
                 Abs(G * G - U * U - V * V) <= 2 * (G + U + V) + 3

WhyStep(e) ==
  IF Len(steps) >= Len(cfg.times) THEN "there are more steps than positions inside the region"
  ELSE IF e.time # cfg.times[Len(steps) + 1] THEN "a step is not at the time of its position"
  ELSE IF (e.x - cfg.gx) % cfg.res # 0 \/ (e.y - cfg.gy) % cfg.res # 0 THEN "a window is not on the grid"
  ELSE IF Len(e.g) # e.w * e.h THEN "a window has not one value for every cell"
  ELSE IF \E n \in DOMAIN e.g : ~Gust(e.g[n], e.u[n], e.v[n]) THEN "a gust is not the size of its wind"
  ELSE ""
WhyLayer(e) ==
  IF k >= Len(steps) THEN "there are more layers than steps"
  ELSE LET s == steps[k + 1] IN
  IF e.time # s.time THEN "a layer is not at the time of its step"
  ELSE IF \E n \in Cells : ~Same(s, s.g, e.g, n, 0, 2) THEN "a layer has other gusts than its step"
  ELSE IF \E n \in Cells : ~Same(s, s.u, e.u, n, 0, 2) \/ ~Same(s, s.v, e.v, n, 0, 2) THEN "a layer has other winds than its step"
  ELSE IF \E n \in Cells : ~Same(s, s.p, e.p, n, -1, 2) THEN "a layer has another pressure than its step"
  ELSE ""
WhyField(e) ==
  IF k # Len(cfg.times) THEN "a step has no layer"
  ELSE IF \E n \in Cells : Abs(e.g[n] - top[n]) > 3 THEN "the maximum wind is not that of the layers"
  ELSE IF \E n \in Cells : Abs(e.p[n] - low[n]) > 3 THEN "the lowest pressure is not that of the layers"
  ELSE ""
Why(e) ==
  CASE e.t = "step"  -> WhyStep(e)
    [] e.t = "axes"  -> IF e.lon # [n \in 1..cfg.nx |-> cfg.gx + (n - 1) * cfg.res] \/ e.lat # [n \in 1..cfg.ny |-> cfg.gy + (n - 1) * cfg.res]
                        THEN "the layers do not cover the domain" ELSE ""
    [] e.t = "layer" -> WhyLayer(e)
    [] e.t = "field" -> WhyField(e)
    [] e.t = "told"  -> IF ~e.same THEN "the time-step callback is not given every step" ELSE ""
    [] e.t = "none"  -> "there is no record of the evolution"
    [] e.t = "extra" -> "a record of the evolution was not asked for"
    [] e.t = "fail"  -> "the wind field calculation fails"
    [] OTHER -> "unknown event"
Apply(e) ==
  CASE e.t = "step"  -> steps' = Append(steps, e) /\ UNCHANGED <<cfg, k, top, low>>
    [] e.t = "layer" -> /\ k' = k + 1
                        /\ top' = [n \in Cells |-> IF e.g[n] > top[n] THEN e.g[n] ELSE top[n]]
                        /\ low' = [n \in Cells |-> IF e.p[n] # -1 /\ e.p[n] < low[n] THEN e.p[n] ELSE low[n]]
                        /\ UNCHANGED <<cfg, steps>>
    [] OTHER -> UNCHANGED vars
WhyEnd == ""
=============================================================================
