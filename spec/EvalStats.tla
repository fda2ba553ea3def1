----------------------------- MODULE EvalStats -----------------------------
(* Statistics of the evaluation of a track model: numbers of positions per    *)
(* cell and year, central pressures per cell, minimum pressures per storm,    *)
(* for one historical record and for a set of synthetic files.  Every file    *)
(* contributes once, in its own right.  Positions in cfg.u parts of a degree, *)
(* pressures in 1/100 hPa (0: missing), rates in 1/10000.                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES cfg, done
vars == <<cfg, done>>
InitWith(c) == cfg = c /\ done = 0

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
First(s) == LET bad == {i \in DOMAIN s : s[i] # ""} IN
            IF bad = {} THEN "" ELSE s[CHOOSE i \in bad : \A j \in bad : i <= j]
\* percentile between the two nearest in rank
Percentile(v, pct) ==
  LET n == Len(v)  s == SortSeq(v, LAMBDA a, b : a < b)  k == (pct * (n - 1)) \div 100  f == (pct * (n - 1)) % 100 IN
  ((s[k + 1] * (100 - f)) + (s[IF k + 2 > n THEN n ELSE k + 2] * f)) \div 100

(* cells of a grid of nx times ny squares of side s, numbered by column *)
CellOf(p, s, nx, ny) == LET i == p[1] \div s  j == p[2] \div s IN
  IF p[1] < 0 \/ p[2] < 0 \/ i >= nx \/ j >= ny THEN 0 ELSE (i * ny) + j + 1
InCell(tr, c, s, nx, ny) == {k \in DOMAIN tr : CellOf(tr[k], s, nx, ny) = c}
\* number of positions in cell c
Positions(tracks, c, s, nx, ny) == Sum([t \in DOMAIN tracks |-> Cardinality(InCell(tracks[t], c, s, nx, ny))])
Rate(n, years) == (n * 10000) \div years

DensityWhy(rep, tracks, years) ==
  IF Len(rep) # cfg.nx * cfg.ny THEN "not one value for each cell"
  ELSE IF \E c \in DOMAIN rep : Abs(rep[c] - Rate(Positions(tracks, c, cfg.u, cfg.nx, cfg.ny), years)) > 1
  THEN "the historical density is not the number of positions per year" ELSE ""
Near(rep, val, n) == Abs(rep - val) <= n
SynDensityWhy(e) ==
  LET n == Len(e.files)
      v(c) == [i \in 1..n |-> Rate(Positions(e.files[i], c, cfg.u, cfg.nx, cfg.ny), e.years)] IN
  IF Len(e.mean) # cfg.nx * cfg.ny \/ Len(e.low) # Len(e.mean) \/ Len(e.high) # Len(e.mean) THEN "not one value for each cell"
  ELSE First([c \in DOMAIN e.mean |->
    IF ~Near(e.mean[c] * n, Sum(v(c)), 2 * n) THEN "the density is not the mean over the files"
    ELSE IF ~Near(e.low[c], Percentile(v(c), 5), 2) THEN "the lower density is not the fifth percentile over the files"
    ELSE IF ~Near(e.high[c], Percentile(v(c), 95), 2) THEN "the upper density is not the ninety-fifth percentile over the files"
    ELSE ""])

(* pressures in the coarser cells; 0 means that there is none *)
RECURSIVE Flat(_, _)
Flat(ss, n) == IF n = 0 THEN <<>> ELSE Flat(ss, n - 1) \o ss[n]
Values(tracks, c) ==
  Flat([t \in DOMAIN tracks |->
          LET k == SelectSeq([i \in 1..Len(tracks[t]) |-> i],
                             LAMBDA i : CellOf(tracks[t][i], cfg.s, cfg.px, cfg.py) = c /\ tracks[t][i][3] > 0) IN
          [j \in 1..Len(k) |-> tracks[t][k[j]][3]]], Len(tracks))
MeanOf(v) == IF v = <<>> THEN 0 ELSE Sum(v) \div Len(v)
Least(v) == IF v = <<>> THEN 0 ELSE CHOOSE x \in {v[i] : i \in DOMAIN v} : \A i \in DOMAIN v : x <= v[i]
Some(v) == SelectSeq(v, LAMBDA x : x > 0)
CellPWhy(mean, min, wantmean, wantmin) ==
  IF wantmean = 0 THEN IF mean = 0 /\ min = 0 THEN "" ELSE "a cell without pressures has one"
  ELSE IF ~Near(mean, wantmean, 3) THEN "a mean pressure is not that of the positions in its cell"
  ELSE IF ~Near(min, wantmin, 3) THEN "a minimum pressure is not that of the positions in its cell" ELSE ""
PressureWhy(e, files) ==
  IF Len(e.mean) # cfg.px * cfg.py \/ Len(e.min) # Len(e.mean) THEN "not one value for each cell"
  ELSE First([c \in DOMAIN e.mean |->
    LET m == Some([i \in DOMAIN files |-> MeanOf(Values(files[i], c))])
        l == Some([i \in DOMAIN files |-> Least(Values(files[i], c))]) IN
    CellPWhy(e.mean[c], e.min[c], MeanOf(m), MeanOf(l))])

\* medians and maxima, in the same cells
Most(v) == IF v = <<>> THEN 0 ELSE CHOOSE x \in {v[i] : i \in DOMAIN v} : \A i \in DOMAIN v : x >= v[i]
Median(v) == IF v = <<>> THEN 0 ELSE Percentile(v, 50)
MiddleWhy(e) ==
  IF Len(e.med) # cfg.px * cfg.py \/ Len(e.max) # Len(e.med) THEN "not one value for each cell"
  ELSE First([c \in DOMAIN e.med |->
    LET m == MeanOf(Some([i \in DOMAIN e.files |-> Median(Values(e.files[i], c))]))
        h == MeanOf(Some([i \in DOMAIN e.files |-> Most(Values(e.files[i], c))])) IN
    IF m = 0 THEN IF e.med[c] = 0 /\ e.max[c] = 0 THEN "" ELSE "a cell without pressures has one"
    ELSE IF ~Near(e.med[c], m, 3) THEN "a median pressure is not that of the positions in its cell"
    ELSE IF ~Near(e.max[c], h, 3) THEN "a maximum pressure is not that of the positions in its cell" ELSE ""])

(* minimum pressure of each storm that starts in the region, 0 for others *)
Starts(tr) == tr[1][1] >= 0 /\ tr[1][1] <= cfg.w /\ tr[1][2] >= 0 /\ tr[1][2] <= cfg.h
StormMin(tr) == IF ~Starts(tr) THEN 0 ELSE Least(Some([k \in DOMAIN tr |-> tr[k][3]]))
MinimaWhy(rep, files) ==
  LET want == Flat([i \in DOMAIN files |-> [t \in DOMAIN files[i] |-> StormMin(files[i][t])]], Len(files)) IN
  IF Len(rep) # Len(want) THEN "not one minimum pressure for each storm"
  ELSE IF \E k \in DOMAIN want : ~Near(rep[k], want[k], 1) THEN "a minimum pressure is not that of its storm" ELSE ""
\* distribution of the minima in classes of 5 hPa from 850, mean over files of the shares (in 1/10000)
Class(x) == ((x - 85000) \div 500) + 1
Shares(ms) == LET in == SelectSeq(ms, LAMBDA x : x >= 85000 /\ x < 101500) IN
  [b \in 1..33 |-> IF in = <<>> THEN 0 ELSE (Cardinality({k \in DOMAIN in : Class(in[k]) = b}) * 10000) \div Len(in)]
DistWhy(rep, low, high, files) ==
  LET n == Len(files)  sh == [i \in 1..n |-> Shares([t \in DOMAIN files[i] |-> StormMin(files[i][t])])] IN
  IF Len(rep) # 33 THEN "not one share for each class of pressures"
  ELSE IF \E b \in 1..33 : ~Near(rep[b] * n, Sum([i \in 1..n |-> sh[i][b]]), 3 * n)
  THEN "the distribution of minimum pressures is not the mean over the files"
  ELSE IF \E b \in DOMAIN low : ~Near(low[b], Percentile([i \in 1..n |-> sh[i][b]], 5), 3)
  THEN "the lower limit of minimum pressures is not the fifth percentile over the files"
  ELSE IF \E b \in DOMAIN high : ~Near(high[b], Percentile([i \in 1..n |-> sh[i][b]], 95), 3)
  THEN "the upper limit of minimum pressures is not the ninety-fifth percentile over the files" ELSE ""

(* what all files give together, from what each gives alone *)
TogetherWhy(e) ==
  LET n == Len(e.parts) IN
  First([c \in DOMAIN e.mean |->
    LET v == [i \in 1..n |-> e.parts[i][c]] IN
    IF ~Near(e.mean[c] * n, Sum(v), 2 * n) THEN "a mean is not that of the files evaluated alone"
    ELSE IF ~Near(e.low[c], Percentile(v, 5), 3) THEN "a lower percentile is not that of the files evaluated alone"
    ELSE IF ~Near(e.high[c], Percentile(v, 95), 3) THEN "an upper percentile is not that of the files evaluated alone"
    ELSE ""])

Why(e) ==
  CASE e.t = "hist" -> DensityWhy(e.dens, e.tracks, (e.last - e.first) + 1)
    [] e.t = "density" -> SynDensityWhy(e)
    [] e.t = "histp" -> PressureWhy(e, <<e.tracks>>)
    [] e.t = "pressure" -> PressureWhy(e, e.files)
    [] e.t = "minima" -> MinimaWhy(e.list, e.files)
    [] e.t = "dist" -> DistWhy(e.dist, e.low, e.high, e.files)
    [] e.t = "middle" -> MiddleWhy(e)
    [] e.t = "together" -> TogetherWhy(e)
    [] e.t = "origins" -> IF e.own > e.far /\ e.far >= 0 THEN ""
                          ELSE "the density of origins is not where storms begin"
    [] e.t = "ended" -> IF e.how = "" THEN "" ELSE "the evaluation does not end well"
    [] OTHER -> "unknown event"
Apply(e) == done' = done + 1 /\ UNCHANGED cfg
WhyEnd == IF done > 0 THEN "" ELSE "no result"
=============================================================================
