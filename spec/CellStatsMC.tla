---------------------------- MODULE CellStatsMC ----------------------------
EXTENDS CellStats
VARIABLE done
mvars == <<cfg, done>>
Obs == <<[x |-> 0, y |-> 0, ok |-> TRUE, land |-> 0, v |-> 1, c |-> 0, s |-> 0],
         [x |-> 1, y |-> 1, ok |-> TRUE, land |-> 1, v |-> 2, c |-> 0, s |-> 0],
         [x |-> -2, y |-> 2, ok |-> TRUE, land |-> 0, v |-> 3, c |-> 0, s |-> 0],
         [x |-> 3, y |-> -1, ok |-> FALSE, land |-> 0, v |-> 4, c |-> 0, s |-> 0]>>
\* domains around the origin, also those whose size is not a multiple of the cell size
MInit == /\ \E a \in -3..0, b \in 1..3, c \in -3..0, d \in 1..3, p \in 1..3, q \in 1..2, m \in 0..2, g \in {"north", "south"} :
              InitWith([x0 |-> a, x1 |-> b, y0 |-> c, y1 |-> d, sx |-> p, sy |-> q, ix |-> 1, iy |-> 1, min |-> m,
                        edge |-> g, obs |-> Obs, angular |-> FALSE])
         /\ done = FALSE
MNext == ~done /\ done' = TRUE /\ UNCHANGED cfg
MSpec == MInit /\ [][MNext]_mvars
Pts == {<<x, y>> \in (-4..4) \X (-4..4) : InDomain(x, y)}
Covers(c, p) == p[1] >= West(c) /\ p[1] < West(c) + cfg.sx /\ p[2] <= North(c) /\ p[2] > North(c) - cfg.sy
OneToOne == /\ \A c \in Cells : InDomain(West(c), North(c)) /\ CellOf(West(c), North(c)) = c
            /\ \A c, d \in Cells : (West(c) = West(d) /\ North(c) = North(d)) => c = d
ExactlyOne == \A p \in Pts : {c \in Cells : Covers(c, p)} = {CellOf(p[1], p[2])}
\* extension ends, and never gives up while the whole domain has enough observations
Domain == SelectSeq([i \in DOMAIN cfg.obs |-> i],
             LAMBDA i : cfg.obs[i].ok /\ InBox(cfg.obs[i], <<cfg.x0, cfg.x1, cfg.y0, cfg.y1>>))
Ends == \A c \in Cells : /\ Stops(c, 0, 2) \subseteq 0..8
                         /\ (Enough(Domain) /\ Varied(Domain)) => Stops(c, 0, 2) # {}
\* samples only grow
Grows == \A c \in Cells, k \in 1..4 : Len(Sample(c, k, 2)) >= Len(Sample(c, k + 1, 2)) => Sample(c, k, 2) = Sample(c, k + 1, 2)
=============================================================================
