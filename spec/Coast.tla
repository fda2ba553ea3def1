------------------------------- MODULE Coast -------------------------------
(* Crossings of a coast and of lines of longitude.  A coast is a closed       *)
(* polygon; its gates are the edges between successive vertices, the closing  *)
(* edge is not a gate.  A segment of a track that goes from sea to land is a  *)
(* landfall in each gate it crosses, one that goes from land to sea a         *)
(* departure.  A line of longitude has an eastern side, to which it belongs   *)
(* itself, and a western side; a segment crosses it in the band of latitude   *)
(* it is in when it changes sides.  All coordinates are integers, so the      *)
(* geometry is exact.                                                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES cfg, done
vars == <<cfg, done>>
InitWith(c) == cfg = c /\ done = 0

Abs(x) == IF x < 0 THEN -x ELSE x
\* > 0 if p is on the left of the line from a to b
Turn(a, b, p) == ((b[1] - a[1]) * (p[2] - a[2])) - ((p[1] - a[1]) * (b[2] - a[2]))
Opposite(x, y) == (x < 0 /\ y > 0) \/ (x > 0 /\ y < 0)
Crosses(p, q, a, b) == Opposite(Turn(a, b, p), Turn(a, b, q)) /\ Opposite(Turn(p, q, a), Turn(p, q, b))
Edges(poly) == [i \in 1..Len(poly) |-> <<poly[i], poly[(i % Len(poly)) + 1]>>]
Up(e, p) == e[1][2] <= p[2] /\ e[2][2] > p[2] /\ Turn(e[1], e[2], p) > 0
Down(e, p) == e[1][2] > p[2] /\ e[2][2] <= p[2] /\ Turn(e[1], e[2], p) < 0
CrossingNumber(p, poly) == LET E == Edges(poly) IN Cardinality({i \in DOMAIN E : Up(E[i], p) \/ Down(E[i], p)})
WindingNumber(p, poly) == LET E == Edges(poly) IN
  Cardinality({i \in DOMAIN E : Up(E[i], p)}) - Cardinality({i \in DOMAIN E : Down(E[i], p)})
Inland(p, poly) == CrossingNumber(p, poly) % 2 = 1

\* nothing lies exactly on anything else
OnSegment(p, a, b) == /\ Turn(a, b, p) = 0
                      /\ (p[1] - a[1]) * (p[1] - b[1]) <= 0 /\ (p[2] - a[2]) * (p[2] - b[2]) <= 0
General(poly, tr) ==
  /\ \A k \in DOMAIN tr : \A i \in DOMAIN poly : ~OnSegment(tr[k], Edges(poly)[i][1], Edges(poly)[i][2])
  /\ \A k \in 1..(Len(tr) - 1) : tr[k] = tr[k + 1] \/ \A i \in DOMAIN poly : ~OnSegment(poly[i], tr[k], tr[k + 1])

(* ---- coastal gates ---- *)
Gates(poly) == 1..(Len(poly) - 1)
Hits(poly, tr, j, onshore) ==
  Cardinality({k \in 1..(Len(tr) - 1) : /\ Inland(tr[k], poly) = ~onshore /\ Inland(tr[k + 1], poly) = onshore
                                         /\ Crosses(tr[k], tr[k + 1], poly[j], poly[j + 1])})
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Count(poly, tracks, onshore) ==
  [j \in Gates(poly) |-> SumTo([t \in DOMAIN tracks |-> Hits(poly, tracks[t], j, onshore)], Len(tracks))]
Total(c) == SumTo(c, Len(c))
Million == 1000000
\* share r (in millionths) of count c out of n
Share(r, c, n) == IF n = 0 THEN r = 0 ELSE Abs(r - ((c * Million) \div n)) <= 2
SharesWhy(rep, c, what) ==
  IF Len(rep) # Len(c) THEN "not one value for each gate"
  ELSE IF \E j \in DOMAIN c : ~Share(rep[j], c[j], Total(c)) THEN what ELSE ""
Exact(c) == [j \in DOMAIN c |-> IF Total(c) = 0 THEN 0 ELSE (c[j] * Million) \div Total(c)]
First(s) == LET bad == {i \in DOMAIN s : s[i] # ""} IN
            IF bad = {} THEN "" ELSE s[CHOOSE i \in bad : \A j \in bad : i <= j]
CoastWhy(poly, tracks, on, off) ==
  IF \E t \in DOMAIN tracks : ~General(poly, tracks[t]) THEN "malformed trace"
  ELSE First(<<SharesWhy(on, Count(poly, tracks, TRUE), "a landfall is not counted once, in its gate"),
               SharesWhy(off, Count(poly, tracks, FALSE), "a departure is not counted once, in its gate")>>)

(* ---- lines of longitude ---- *)
East(p, lon) == p[1] >= lon
\* latitude of the crossing times (q.x - p.x), made positive
CrossNum(p, q, lon) == LET d == q[1] - p[1] IN
  IF d > 0 THEN (p[2] * d) + ((lon - p[1]) * (q[2] - p[2])) ELSE -((p[2] * d) + ((lon - p[1]) * (q[2] - p[2])))
InBand(p, q, lon, lo, hi) == LET d == Abs(q[1] - p[1]) IN
  /\ CrossNum(p, q, lon) >= lo * d /\ CrossNum(p, q, lon) < hi * d
OnBorder(p, q, lon, lats) == LET d == Abs(q[1] - p[1]) IN \E i \in DOMAIN lats : CrossNum(p, q, lon) = lats[i] * d
Passes(tr, lon, lo, hi, east) ==
  Cardinality({k \in 1..(Len(tr) - 1) : /\ East(tr[k], lon) = ~east /\ East(tr[k + 1], lon) = east
                                         /\ InBand(tr[k], tr[k + 1], lon, lo, hi)})
Bands(tracks, lon, lats, east) ==
  [b \in 1..(Len(lats) - 1) |->
     SumTo([t \in DOMAIN tracks |-> Passes(tracks[t], lon, lats[b], lats[b + 1], east)], Len(tracks))]
Both(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
LonGeneral(tracks, lons, lats) ==
  \A t \in DOMAIN tracks : \A k \in 1..(Len(tracks[t]) - 1) : \A g \in DOMAIN lons :
     East(tracks[t][k], lons[g]) # East(tracks[t][k + 1], lons[g]) => ~OnBorder(tracks[t][k], tracks[t][k + 1], lons[g], lats)
LonWhy(tracks, lons, lats, all, ew, we) ==
  IF ~LonGeneral(tracks, lons, lats) THEN "malformed trace"
  ELSE IF Len(all) # Len(lons) \/ Len(ew) # Len(lons) \/ Len(we) # Len(lons) THEN "not one column for each longitude"
  ELSE First([g \in DOMAIN lons |->
    LET toE == Bands(tracks, lons[g], lats, TRUE)  toW == Bands(tracks, lons[g], lats, FALSE) IN
    First(<<SharesWhy(all[g], Both(toE, toW), "a crossing of a longitude is not counted once, in its band"),
            SharesWhy(we[g], toE, "an eastward crossing is not counted once, in its band"),
            SharesWhy(ew[g], toW, "a westward crossing is not counted once, in its band")>>)])

(* ---- statistics over files: the mean of the shares of the files ---- *)
MeanWhy(rep, cs, what) ==
  LET n == Len(cs) IN
  IF \E i \in DOMAIN cs : Len(cs[i]) # Len(rep) THEN "not one value for each gate"
  ELSE IF \E j \in DOMAIN rep : Abs((rep[j] * n) - SumTo([i \in 1..n |-> Exact(cs[i])[j]], n)) > 4 * n
  THEN what ELSE ""
\* percentile of the shares of the files, between the two nearest in rank
Percentile(v, pct) ==
  LET n == Len(v)  s == SortSeq(v, LAMBDA a, b : a < b)  k == (pct * (n - 1)) \div 100  f == (pct * (n - 1)) % 100 IN
  ((s[k + 1] * (100 - f)) + (s[IF k + 2 > n THEN n ELSE k + 2] * f)) \div 100
PercWhy(rep, cs, pct, what) ==
  IF \E i \in DOMAIN cs : Len(cs[i]) # Len(rep) THEN "not one value for each gate"
  ELSE IF \E j \in DOMAIN rep : Abs(rep[j] - Percentile([i \in DOMAIN cs |-> Exact(cs[i])[j]], pct)) > 4 THEN what ELSE ""
BoundsWhy(cs, b) == First(<<PercWhy(b[1], cs, 5, "the lower rates are not the fifth percentile over the files"),
                            PercWhy(b[2], cs, 95, "the upper rates are not the ninety-fifth percentile over the files")>>)
FilesWhy(poly, files, on, off) ==
  IF \E i \in DOMAIN files : \E t \in DOMAIN files[i] : ~General(poly, files[i][t]) THEN "malformed trace"
  ELSE First(<<MeanWhy(on, [i \in DOMAIN files |-> Count(poly, files[i], TRUE)], "the landfall rates are not the mean over the files"),
               MeanWhy(off, [i \in DOMAIN files |-> Count(poly, files[i], FALSE)], "the departure rates are not the mean over the files")>>)
LonFilesWhy(files, lons, lats, ew, we) ==
  IF \E i \in DOMAIN files : ~LonGeneral(files[i], lons, lats) THEN "malformed trace"
  ELSE First([g \in DOMAIN lons |->
    First(<<MeanWhy(we[g], [i \in DOMAIN files |-> Bands(files[i], lons[g], lats, TRUE)], "the eastward rates are not the mean over the files"),
            MeanWhy(ew[g], [i \in DOMAIN files |-> Bands(files[i], lons[g], lats, FALSE)], "the westward rates are not the mean over the files")>>)])

Why(e) ==
  CASE e.t = "point" -> IF \E i \in DOMAIN cfg.poly : OnSegment(e.p, Edges(cfg.poly)[i][1], Edges(cfg.poly)[i][2]) THEN "malformed trace"
                        ELSE IF e.land # Inland(e.p, cfg.poly) THEN "a point is on the wrong side of the coast" ELSE ""
    [] e.t = "coast" -> CoastWhy(cfg.poly, e.tracks, e.on, e.off)
    [] e.t = "coastfiles" -> FilesWhy(cfg.poly, e.files, e.on, e.off)
    [] e.t = "lon" -> LonWhy(e.tracks, cfg.lons, cfg.lats, e.all, e.ew, e.we)
    [] e.t = "coastbounds" -> First(<<BoundsWhy([i \in DOMAIN e.files |-> Count(cfg.poly, e.files[i], TRUE)], e.on),
                                      BoundsWhy([i \in DOMAIN e.files |-> Count(cfg.poly, e.files[i], FALSE)], e.off)>>)
    [] e.t = "lonbounds" -> First([g \in DOMAIN cfg.lons |->
         First(<<BoundsWhy([i \in DOMAIN e.files |-> Bands(e.files[i], cfg.lons[g], cfg.lats, TRUE)], e.we[g]),
                 BoundsWhy([i \in DOMAIN e.files |-> Bands(e.files[i], cfg.lons[g], cfg.lats, FALSE)], e.ew[g])>>)])
    [] e.t = "lonfiles" -> LonFilesWhy(e.files, cfg.lons, cfg.lats, e.ew, e.we)
    [] e.t = "line" -> IF e.hit # (\E i \in DOMAIN Edges(cfg.poly) : Crosses(e.p, e.q, Edges(cfg.poly)[i][1], Edges(cfg.poly)[i][2]))
                       THEN "a line is wrongly said to cross a polygon or not to" ELSE ""
    [] e.t = "ended" -> IF e.how = "" THEN "" ELSE "the evaluation does not end well"
    [] OTHER -> "unknown event"
Apply(e) == done' = done + 1 /\ UNCHANGED cfg
WhyEnd == IF done > 0 THEN "" ELSE "no result"
=============================================================================
