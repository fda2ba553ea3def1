----------------------------- MODULE CellStats -----------------------------
(* Cells of a longitude/latitude domain and the observations that make up     *)
(* the statistics of a cell.  Cells are numbered row by row from the          *)
(* north-western corner; a cell contains its western and northern sides.      *)
(* Coordinates are in thousandths of a degree.                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

VARIABLES cfg     \* x0, x1, y0, y1, sx, sy, ix, iy, min, edge, obs
vars == <<cfg>>
InitWith(c) == cfg = c

CeilDiv(a, b) == -((-a) \div b)
Nx == CeilDiv(cfg.x1 - cfg.x0, cfg.sx)
Ny == CeilDiv(cfg.y1 - cfg.y0, cfg.sy)
Cells == 0..(Nx * Ny - 1)
InDomain(x, y) == x >= cfg.x0 /\ x < cfg.x1 /\ y > cfg.y0 /\ y <= cfg.y1
CellOf(x, y) == ((cfg.y1 - y) \div cfg.sy) * Nx + ((x - cfg.x0) \div cfg.sx)
West(c) == cfg.x0 + (c % Nx) * cfg.sx
North(c) == cfg.y1 - (c \div Nx) * cfg.sy

\* Box of cell c after k extensions, kept within the domain once it has been extended
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
Box(c, k) ==
  LET w == West(c) IN
  LET n == North(c) IN
  IF k = 0 THEN <<w, w + cfg.sx, n - cfg.sy, n>>
  ELSE <<Most(cfg.x0, w - k * cfg.ix), Least(cfg.x1, w + cfg.sx + k * cfg.ix),
         Most(cfg.y0, n - cfg.sy - k * cfg.iy), Least(cfg.y1, n + k * cfg.iy)>>
\* edge = "north": a cell contains its northern side; "south": its southern side
InBox(o, b) == /\ o.x >= b[1] /\ o.x < b[2]
               /\ IF cfg.edge = "north" THEN o.y > b[3] /\ o.y <= b[4] ELSE o.y >= b[3] /\ o.y < b[4]
\* land = 2: whatever the surface
Sample(c, k, land) == LET b == Box(c, k) IN
  SelectSeq([i \in DOMAIN cfg.obs |-> i],
            LAMBDA i : /\ cfg.obs[i].ok /\ InBox(cfg.obs[i], b)
                       /\ (land = 2 \/ cfg.obs[i].land = land))
Enough(s) == Len(s) > cfg.min
MayDo(s) == Len(s) >= cfg.min /\ Len(s) > 0
Varied(s) == \E i, j \in DOMAIN s : cfg.obs[s[i]].v # cfg.obs[s[j]].v
Full(c, k) == k > 0 /\ Box(c, k) = Box(c, k - 1)
KMax == 200
\* extensions at which the sample of cell c may be taken: the first one that has more than the minimum
\* of observations that are not all alike, or already one that has the minimum
RECURSIVE Stops(_, _, _)
Stops(c, k, land) ==
  LET s == Sample(c, k, land) IN
  IF Full(c, k) \/ k > KMax THEN {}
  ELSE IF Enough(s) /\ Varied(s) THEN {k}
  ELSE IF MayDo(s) /\ Varied(s) THEN {k} \cup Stops(c, k + 1, land)
  ELSE Stops(c, k + 1, land)
Allowed(c, land) == {LET s == Sample(c, k, land) IN [i \in DOMAIN s |-> cfg.obs[s[i]].v] : k \in Stops(c, 0, land)}
\* some extension has more than the minimum, so there must be a sample
Must(c, land) == \E k \in Stops(c, 0, land) : Enough(Sample(c, k, land))

Abs(x) == IF x < 0 THEN -x ELSE x
StatsWhy(e) ==
  LET s == e.vals IN
  LET n == Len(s) IN
  LET sum == FoldSeq(LAMBDA v, acc : acc + v, 0, s) IN
  LET sq == FoldSeq(LAMBDA v, acc : acc + v * v, 0, s) IN
  IF cfg.angular
  THEN IF Abs(e.C) + Abs(e.S) > 300 * n   \* a mean direction exists
          /\ (Abs(e.C * e.smu - e.S * e.cmu) > 20 * (Abs(e.C) + Abs(e.S)) + 2000 \/ e.C * e.cmu + e.S * e.smu < 0)
       THEN "the mean direction of a cell is not that of its observations" ELSE ""
  ELSE IF Abs(e.mu * n - sum * 100) > n + 1 THEN "the mean of a cell is not that of its observations"
  ELSE IF Abs(e.var * n - (sq * 100 - (sum * sum * 100) \div n)) > 2 * n + 2 THEN "the spread of a cell is not that of its observations"
  ELSE IF e.mn # Min({s[i] : i \in DOMAIN s}) THEN "the minimum of a cell is not that of its observations"
  ELSE IF sq > 0 /\ Abs(e.alpha * sq - 1000 * FoldSeq(LAMBDA i, acc : acc + s[i] * s[i + 1], 0, [i \in 1..(n - 1) |-> i])) > 2 * sq + 1000
       THEN "the correlation of a cell is not that of its observations"
  ELSE ""

Why(e) ==
  CASE e.t = "num" -> IF ~InDomain(e.x, e.y) THEN (IF e.cell < 0 THEN "" ELSE "a point outside the domain has a cell")
                      ELSE IF e.cell = CellOf(e.x, e.y) THEN "" ELSE "a point is given the number of another cell"
    [] e.t = "corner" -> IF e.cell \notin Cells THEN (IF ~e.valid /\ ~e.ok THEN "" ELSE "a cell outside the domain has a corner")
                         ELSE IF ~e.valid THEN "a cell of the domain is called invalid"
                         ELSE IF e.ok /\ e.x = West(e.cell) /\ e.y = North(e.cell) THEN "" ELSE "a cell has the corner of another one"
    [] e.t = "max" -> IF e.n = Nx * Ny - 1 THEN "" ELSE "the number of cells is wrong"
    [] e.t = "sample" ->
         LET al == Allowed(e.cell, e.land) IN
         LET sea == Allowed(e.cell, 0) IN
         LET must == Must(e.cell, e.land) IN
         LET seaMust == Must(e.cell, 0) IN
         IF e.ok
         THEN IF e.vals \in al THEN ""
              \* too few observations over land: those over sea are used
              ELSE IF e.land = 1 /\ ~must /\ e.vals \in sea THEN ""
              ELSE IF al = {} /\ (e.land # 1 \/ sea = {}) THEN "statistics are given without enough observations"
              ELSE "the observations of a cell are not those within it"
         ELSE IF must \/ (e.land = 1 /\ seaMust)
              THEN "the statistics of a cell fail although there are enough observations" ELSE ""
    [] e.t = "stats" -> StatsWhy(e)
    [] e.t = "file" -> IF e.got = e.want THEN "" ELSE "statistics are stored at another cell"
    [] e.t = "cdf" -> IF e.cells = [i \in 1..(Nx * Ny) |-> i - 1] THEN "" ELSE "a cell has no distribution of its own"
    [] e.t = "range" -> LET all == {e.vals[i] : i \in DOMAIN e.vals} IN     \* tenths of the unit
                        IF e.lo = 10 * Min(all) /\ e.hi <= 10 * Max(all) /\ e.hi >= 10 * Max(all) - e.step - 1
                        THEN "" ELSE "the distribution of a cell does not span its observations"
    [] OTHER -> "unknown event"
Apply(e) == UNCHANGED vars
WhyEnd == ""
=============================================================================
