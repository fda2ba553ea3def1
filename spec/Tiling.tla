------------------------------- MODULE Tiling -------------------------------
(* Division of the hazard domain into rectangular tiles.  Coordinates are in  *)
(* thousandths of a degree; cells are index pairs of the wind-field grid.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

VARIABLES cfg,    \* lon, lat: coordinates; x0,x1,y0,y1: limits; xs,ys: tile size; nt: tiles announced
          k,      \* next tile number
          cov,    \* set of cells covered so far
          ext     \* has the domain extent been reported
vars == <<cfg, k, cov, ext>>

Cols(c) == {i \in 0..(Len(c.lon)-1) : c.lon[i+1] >= c.x0 /\ c.lon[i+1] <= c.x1}
Rows(c) == {j \in 0..(Len(c.lat)-1) : c.lat[j+1] >= c.y0 /\ c.lat[j+1] <= c.y1}
Rect(a, b, c, d) == (a..(b-1)) \X (c..(d-1))

InitWith(c) == cfg = c /\ k = 0 /\ cov = {} /\ ext = FALSE

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

Why(e) ==
  CASE e.t = "tile" ->
         LET R == Rect(e.x1, e.x2, e.y1, e.y2) IN
         IF e.k # k THEN "tile numbers have a gap or repeat"
         ELSE IF e.x1 >= e.x2 \/ e.y1 >= e.y2 THEN "empty tile"
         ELSE IF ~((e.x1..(e.x2-1)) \subseteq Cols(cfg)) \/ ~((e.y1..(e.y2-1)) \subseteq Rows(cfg))
         THEN "tile reaches outside the domain"
         ELSE IF e.x2 - e.x1 > cfg.xs \/ e.y2 - e.y1 > cfg.ys THEN "tile is larger than the tile size"
         ELSE IF R \cap cov # {} THEN "two tiles share a cell"
         ELSE ""
    [] e.t = "extent" ->
         LET C == Cols(cfg)  R == Rows(cfg) IN
         IF Len(e.lon) # Cardinality(C) \/ Len(e.lat) # Cardinality(R)
         THEN "reported coordinates do not match the domain"
         ELSE IF \E i \in 1..Len(e.lon) : e.lon[i] # cfg.lon[SetMin(C) + i]
         THEN "wrong longitude reported"
         ELSE IF \E i \in 1..Len(e.lat) : e.lat[i] # cfg.lat[SetMin(R) + i]
         THEN "wrong latitude reported"
         ELSE ""
    [] e.t = "fail" -> "the domain could not be divided"
    [] OTHER -> "unknown event"

Apply(e) ==
  CASE e.t = "tile" -> /\ k' = k + 1
                       /\ cov' = cov \cup Rect(e.x1, e.x2, e.y1, e.y2)
                       /\ UNCHANGED <<cfg, ext>>
    [] OTHER -> ext' = TRUE /\ UNCHANGED <<cfg, k, cov>>

WhyEnd == IF cov # Cols(cfg) \X Rows(cfg) THEN "some cell of the domain is in no tile"
          ELSE IF k # cfg.nt THEN "number of tiles announced is wrong"
          ELSE IF ~ext THEN "no extent reported"
          ELSE ""

(* ---- the column-by-column enumeration, checked to be a partition ---- *)
CeilDiv(a, b) == (a + b - 1) \div b
Min2(a, b) == IF a < b THEN a ELSE b
AlgoTile(c, n) ==
  LET i0 == SetMin(Cols(c))  j0 == SetMin(Rows(c))
      nx == Cardinality(Cols(c))  ny == Cardinality(Rows(c))
      rows == CeilDiv(ny, c.ys)
      i == n \div rows  j == n % rows IN
  [t |-> "tile", k |-> n,
   x1 |-> i0 + i * c.xs, x2 |-> i0 + Min2((i+1) * c.xs, nx),
   y1 |-> j0 + j * c.ys, y2 |-> j0 + Min2((j+1) * c.ys, ny)]
AlgoExtent(c) ==
  LET C == Cols(c)  R == Rows(c) IN
  [t |-> "extent", lon |-> [i \in 1..Cardinality(C) |-> c.lon[SetMin(C) + i]],
                   lat |-> [i \in 1..Cardinality(R) |-> c.lat[SetMin(R) + i]]]

Mk(nx, ny, xs, ys, ox, oy) ==
  [lon |-> [i \in 1..(nx + 2*ox) |-> 110000 + 50 * i],
   lat |-> [j \in 1..(ny + 2*oy) |-> -25000 + 50 * j],
   x0 |-> 110000 + 50 * (ox + 1), x1 |-> 110000 + 50 * (ox + nx),
   y0 |-> -25000 + 50 * (oy + 1), y1 |-> -25000 + 50 * (oy + ny),
   xs |-> xs, ys |-> ys, nt |-> CeilDiv(nx, xs) * CeilDiv(ny, ys)]

Init == \E nx \in 1..5, ny \in 1..5, xs \in 1..6, ys \in 1..6, ox \in {0, 2}, oy \in {0, 1} :
          InitWith(Mk(nx, ny, xs, ys, ox, oy))
Next == \/ /\ k < cfg.nt
           /\ Apply(AlgoTile(cfg, k))
        \/ /\ ~ext /\ k = cfg.nt /\ Apply(AlgoExtent(cfg))
Spec == Init /\ [][Next]_vars
Allowed == /\ k < cfg.nt => Why(AlgoTile(cfg, k)) = ""
           /\ ~ext => Why(AlgoExtent(cfg)) = ""
Final == (k = cfg.nt /\ ext) => WhyEnd = ""

(* ---- input classes for replay: every size, tile size and remainder ---- *)
GInit == \E nx \in 1..7, ny \in 1..4, xs \in 1..8, ys \in 1..5, ox \in {0, 1, 2}, oy \in {0, 1} :
           cfg = <<nx, ny, xs, ys, ox, oy>> /\ k = 0 /\ cov = {} /\ ext = FALSE
GNext == /\ k = 0 /\ k' = 1 /\ UNCHANGED <<cfg, cov, ext>>
         /\ PrintT("GEN" \o ToJson(cfg))
=============================================================================
