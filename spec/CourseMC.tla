------------------------------ MODULE CourseMC ------------------------------
(* Every storm of a small world that develops by the rules is accepted: four  *)
(* cells in a row, one of them land, a storm that goes anywhere.  Variants    *)
(* with a slip are refuted: the hours on land counted on over the sea         *)
(* ("counts on"), the statistics of the sea used over land ("sea means"), the *)
(* deficit at genesis used at every landfall ("first deficit"), the rate of   *)
(* the first landfall used again ("one rate").                                *)
EXTENDS Course
CONSTANTS Depth, Slip
VARIABLES hours, off, fast, pc
mvars == <<cfg, dt, n, last, dd, falls, ref, hours, off, fast, pc>>
Space == 5000000
World(twin) == [x0 |-> 100000000, x1 |-> 120000000, y0 |-> -15000000, y1 |-> -10000000, space |-> Space, cols |-> 4,
          cells |-> [k \in 1..4 |-> [sv |-> 10000 * k, sb |-> 90000 * k, sr |-> IF k = 2 THEN -3200 ELSE 3200,
                                     lv |-> 5000 * k, lb |-> 80000 * k, low |-> 930000]],
          calm |-> 990000, ks |-> TRUE, kl |-> TRUE, edge |-> 600000, maxn |-> Depth, twin |-> twin, dt1 |-> 3600,
          boxes |-> <<[x0 |-> 110000000, x1 |-> 120000000, y0 |-> -16000000, y1 |-> -9000000]>>]
Spots == {102000000, 107000000, 110200000, 112000000, 117000000}
Env == 1000000
\* a slow storm keeps 15/16 of its deficit in a step, a fast one 14/16
RECURSIVE Faded(_, _, _)
Faded(d, k, f) == IF k = 0 THEN d ELSE Faded((d * (IF f THEN 14 ELSE 15)) \div 16, k - 1, f)
At(x) == [x |-> x, y |-> -12000000]
\* the generator: what the next point at x is
Make(x, h, o) ==
  LET p0 == At(x) IN LET g == Ground(p0) IN LET c == Cell(p0) IN
  LET land == x > 110000000 IN
  LET means == IF land /\ Slip # "sea means" THEN <<c.lv, c.lb>> ELSE <<c.sv, c.sb>> IN
  [t |-> "point", bad |-> FALSE, x |-> x, y |-> -12000000, age |-> n * dt, env |-> Env,
   v |-> IF n = 1 THEN last.v ELSE means[1], b |-> IF n = 1 THEN last.b ELSE means[2] % 360000,
   p |-> IF land THEN Env - Faded(o, h, fast) ELSE SeaWant(c)]
MInit == \E twin \in BOOLEAN : InitWith(World(twin)) /\ hours = 0 /\ off = 64000 /\ fast = TRUE /\ pc = "new"
Start == /\ pc = "new" /\ pc' = "run"
         /\ dt' = 3600 /\ n' = 1 /\ hours' = 0 /\ off' = 64000 /\ fast' = TRUE
         /\ last' = [t |-> "point", bad |-> FALSE, x |-> 107000000, y |-> -12000000, age |-> 0, env |-> Env, p |-> Env - 64000, v |-> 20000, b |-> 0]
         /\ dd' = <<6400>> /\ falls' = <<>> /\ UNCHANGED <<cfg, ref>>
Step == /\ pc = "run" /\ n < Depth
        /\ \E x \in Spots :
             LET land == x > 110000000 IN
             LET h == IF land THEN hours + 1 ELSE IF Slip = "counts on" THEN hours ELSE 0 IN
             LET e == Make(x, h, off) IN
             IF Env - e.p < 5000 THEN pc' = "over" /\ UNCHANGED <<cfg, dt, n, last, dd, falls, ref, hours, off, fast>>
             ELSE /\ pc' = IF Why(e) = "" THEN "run" ELSE "refused"
                  /\ Apply(e) /\ hours' = h
                  /\ off' = IF land \/ Slip = "first deficit" THEN off ELSE e.env - e.p
                  /\ fast' = IF land \/ Slip = "one rate" THEN fast ELSE e.v > 15000
MNext == Start \/ Step
MSpec == MInit /\ [][MNext]_mvars
Accepted == pc # "refused"
\* on land a storm has never more deficit than it brought from the sea
Fades == pc = "run" /\ n > 1 /\ Ground(last) = "land" => Env - last.p <= off
=============================================================================
