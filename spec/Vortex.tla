------------------------------- MODULE Vortex -------------------------------
(* Radial profiles of wind and pressure of a storm and its wind field.        *)
(* Winds in cm/s (positive: anticlockwise), radii in units of 1/1000 of the   *)
(* radius of maximum wind, pressures in 1/10 Pa.  hemi is 1 north, -1 south.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES cfg,   \* kind, hemi, vmax, single, balance, still, pc, pe, want, half
          last,  \* the value before (profiles), fastest wind so far (rings)
          seen   \* number of values
vars == <<cfg, last, seen>>
InitWith(c) == cfg = c /\ last = [r |-> 0, v |-> 0, a |-> 0] /\ seen = 0
Abs(x) == IF x < 0 THEN -x ELSE x
BAD == -99999999
RM == 1000
Near(a, b) == Abs(a - b) <= 2 + Abs(a) \div 20000
Numbers(e) == \A k \in DOMAIN e : k = "t" \/ e[k] # BAD

\* ---- wind at one radius: v, of the mirrored storm m, of the other
\* ---- implementation a, with pressures in other units h; vorticity z, zm, za
WhyV(e) ==
  IF e.r <= last.r THEN "radii do not increase"
  ELSE IF e.v * cfg.hemi < 0 THEN "the circulation has the wrong sense"
  ELSE IF ~Near(e.v, -e.m) \/ ~Near(e.z, -e.zm) THEN "the profile of the mirrored storm is not mirrored"
  ELSE IF ~Near(e.v, e.a) \/ ~Near(e.z, e.za) THEN "the compiled and the plain profile differ"
  ELSE IF ~Near(e.v, e.h) THEN "the profile depends on the units of the pressure"
  ELSE IF ~cfg.single THEN ""
  ELSE IF e.r <= RM \div 50 /\ Abs(e.v) > cfg.vmax \div 10 THEN "the wind does not vanish at the centre"
  ELSE IF 25 * Abs(e.v) > 26 * cfg.vmax + 25 THEN "the wind is stronger than the maximum of the profile"
  ELSE IF e.r <= RM /\ Abs(e.v) < Abs(last.v) - cfg.vmax \div 50 - 1 THEN "the wind decreases inside the radius of maximum wind"
  ELSE IF e.r = RM /\ Abs(Abs(e.v) - cfg.vmax) > 1 + cfg.vmax \div 1000 THEN "the wind at the radius of maximum wind is not the maximum"
  ELSE IF e.r > RM /\ Abs(e.v) > Abs(last.v) THEN "the wind increases outside the radius of maximum wind"
  \* V^2 + r f V = (r / rho) dP/dr
  ELSE IF cfg.balance /\ e.r > RM /\ Abs(e.v * e.v + e.rf * Abs(e.v) - e.g) > 4 * cfg.vmax + e.g \div 200
       THEN "the wind does not balance the pressure gradient"
  ELSE ""

\* ---- pressure at one radius
WhyP(e) ==
  IF e.r <= last.r THEN "radii do not increase"
  ELSE IF e.v < cfg.pc - 1 \/ e.v > cfg.pe + 1 THEN "the pressure is not between centre and environment"
  ELSE IF seen = 0 /\ 20 * (e.v - cfg.pc) > cfg.pe - cfg.pc THEN "the pressure at the centre is not the central pressure"
  ELSE IF seen > 0 /\ e.v < last.v THEN "the pressure falls outwards"
  ELSE IF ~Near(e.v, e.a) THEN "the compiled and the plain profile differ"
  ELSE ""

\* ---- wind (u, v) at a place in direction (x, y)/1000 of the centre; of the
\* ---- mirrored storm (um, vm), of the rotated or moved storm, turned back,
\* ---- (ur, vr), of the other implementation (ua, va)
Turn(e) == e.x * e.v - e.y * e.u
Out(e) == e.x * e.u + e.y * e.v
WhyW(e) ==
  IF ~(Near(e.u, e.um) /\ Near(e.v, -e.vm)) THEN "the wind field of the mirrored storm is not mirrored"
  ELSE IF ~(Near(e.u, e.ur) /\ Near(e.v, e.vr)) THEN "the wind field does not turn or move with the storm"
  ELSE IF ~(Near(e.u, e.ua) /\ Near(e.v, e.va)) THEN "the compiled and the plain wind field differ"
  ELSE IF cfg.still /\ Turn(e) * cfg.hemi < -2000 - Abs(e.u) - Abs(e.v) THEN "the wind blows the wrong way round"
  ELSE IF cfg.still /\ Out(e) > 2000 + Abs(e.u) + Abs(e.v) THEN "the wind blows out of a storm that does not move"
  ELSE ""

\* ---- speed s on a ring, at angle a (degrees from the wanted direction of
\* ---- the maximum, or from the direction of motion)
WhyR(e) == IF e.a \notin -180..180 THEN "unknown event" ELSE ""

\* ---- speed v along a line from the centre, inside or outside the radius of
\* ---- maximum wind: no jumps (cfg.vmax: the largest speed of the line)
WhyL(e) ==
  IF e.r <= last.r THEN "radii do not increase"
  ELSE IF seen > 0 /\ 30 * Abs(e.v - last.v) > cfg.vmax + 60 THEN "the wind speed jumps between neighbouring places"
  ELSE ""

\* ---- maximum wind s of a deficit d and central pressure back of that wind
WhyS(e) ==
  IF seen > 0 /\ e.d <= last.r THEN "deficits do not increase"
  ELSE IF e.v <= last.v THEN "the maximum wind does not increase with the pressure deficit"
  ELSE IF Abs(e.back - e.d) > 2 + e.d \div 10000 THEN "the pressure deficit of the maximum wind is another one"
  ELSE ""

Why(e) == IF e.t \notin {"v", "p", "w", "ring", "line", "s"} \/ e.t # cfg.kind THEN "unknown event"
          ELSE IF ~Numbers(e) THEN "a value is not a number"
          ELSE CASE e.t = "v" -> WhyV(e) [] e.t = "p" -> WhyP(e) [] e.t = "w" -> WhyW(e)
                 [] e.t = "ring" -> WhyR(e) [] e.t = "line" -> WhyL(e) [] OTHER -> WhyS(e)
Apply(e) == /\ seen' = seen + 1 /\ UNCHANGED cfg
            /\ last' = CASE e.t = "v" -> [r |-> e.r, v |-> e.v, a |-> 0]
                         [] e.t \in {"p", "line"} -> [r |-> e.r, v |-> e.v, a |-> 0]
                         [] e.t = "s" -> [r |-> e.d, v |-> e.v, a |-> 0]
                         [] e.t = "ring" -> IF e.v > last.v THEN [r |-> 0, v |-> e.v, a |-> e.a] ELSE last
                         [] OTHER -> last
\* side of the motion: left (positive angles) in the south, right in the north
WhyEnd ==
  IF seen < cfg.n THEN "values are missing"
  ELSE IF cfg.kind = "p" /\ cfg.reach /\ 5 * (cfg.pe - last.v) > cfg.pe - cfg.pc THEN "the pressure does not reach that of the environment"
  ELSE IF cfg.kind = "ring" /\ cfg.half /\ -cfg.hemi * last.a \notin 0..180 THEN "the strongest wind is on the wrong side of the motion"
  ELSE IF cfg.kind = "ring" /\ ~cfg.half /\ Abs(last.a) > 10 THEN "the strongest wind is not at the given angle"
  ELSE ""
=============================================================================
