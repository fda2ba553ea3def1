----------------------------- MODULE HazardCell -----------------------------
(* The hazard of a grid cell as a function of the cell's own wind history.    *)
(* Wind speeds are integers (multiples of 1/8 m/s).  The distribution fit is  *)
(* an uninterpreted function: it is learned from reference runs on a single   *)
(* cell with one year per simulation, where the T-year level of maxima over n *)
(* years is the level of T/n years and events keep their rate per year ("ref" *)
(* events: sample -> fitted value); every cell of the real result must be     *)
(* that function of the sample this module computes from the   *)
(* wind-field files.  Fitted return levels are order-preserving integer codes;*)
(* -1 codes "missing", 0 codes the value zero.                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES cfg,    \* years: return periods; minrec; method; nsim; yps: years per simulation; files: [year, w]; lon, lat; ny, nx
          fit,    \* sequence of [s |-> sample, v |-> fitted]
          seen    \* cells whose value has been judged
vars == <<cfg, fit, seen>>

InitWith(c) == cfg = c /\ fit = <<>> /\ seen = {}

NCells == cfg.nx * cfg.ny
Max2(a, b) == IF a > b THEN a ELSE b
SeqMax(s) == FoldLeft(Max2, 0, s)
Annual(c) == [y \in 1..cfg.nsim |->
                 SeqMax([i \in 1..Len(cfg.files) |->
                     IF cfg.files[i].year = y - 1 THEN cfg.files[i].w[c] ELSE 0])]
Events1(c) == [i \in 1..Len(cfg.files) |-> cfg.files[i].w[c]]
Sample(c) == SortSeq(IF cfg.method = "GEV" THEN Annual(c) ELSE Events1(c),
                     LAMBDA a, b : a < b)
Valid(s) == Cardinality({i \in 1..Len(s) : s[i] > 0})
Known(s) == {i \in 1..Len(fit) : fit[i].s = s}

Missing(v) == \A i \in 1..Len(v.w) : v.w[i] = -1
ParMissing(v) == \A i \in 1..Len(v.p) : v.p[i] = -1
IsZero(v) == (\A i \in 1..Len(v.w) : v.w[i] = 0) /\ (\A i \in 1..Len(v.p) : v.p[i] = 0)
Monotone(v) == \A i, j \in 1..Len(v.w) :
                 (cfg.years[i] <= cfg.years[j] /\ v.w[i] # -1 /\ v.w[j] # -1) => v.w[i] <= v.w[j]
Counts(m) == m # "emp"        \* methods that need a minimum number of records

(* Empirical levels: the record of nsim*yps years of days (365.25 a year) is the    *)
(* sample padded with zeros; the level of return period T lies between the two  *)
(* order statistics whose plotting positions enclose T.                         *)
Years0 == cfg.nsim * cfg.yps
Days == (1461 * Years0) \div 4
OrdStat(s, k) == IF k <= Days - Len(s) THEN 0
                 ELSE IF k > Days THEN s[Len(s)] ELSE s[k - (Days - Len(s))]
RankOf(T) == ((1461 * Years0 + 4) * ((1461 * T - 4) \div 2)) \div (2 * 1461 * T)
\* one rank of slack on either side covers the integer arithmetic
Bracketed(s, T, lo, hi) == /\ hi >= OrdStat(s, RankOf(T) - 1)
                           /\ lo <= OrdStat(s, RankOf(T) + 2)

WhyCell(e) ==
  LET s == Sample(e.c) IN
  IF e.c \in seen THEN "cell reported twice"
  ELSE IF Len(e.v.w) # Len(cfg.years) THEN "wrong number of return periods"
  ELSE IF Valid(s) = 0
  THEN IF IsZero(e.v) THEN "" ELSE "a cell without wind has a hazard value"
  ELSE IF Counts(cfg.method) /\ Valid(s) < cfg.minrec
  THEN IF Missing(e.v) /\ ParMissing(e.v) THEN "" ELSE "a cell with too few records has a value"
  ELSE IF Known(s) = {} THEN "machinery: sample without reference"
  ELSE LET f == fit[CHOOSE i \in Known(s) : TRUE] IN
       IF e.v # f.v
       THEN IF Missing(e.v) /\ ~Missing(f.v) THEN "a cell with enough records is missing"
            ELSE "the value is not the one its own wind history gives"
       ELSE IF cfg.method = "emp" /\ \E i \in 1..Len(cfg.years) : ~Bracketed(s, cfg.years[i], e.lo[i], e.hi[i])
       THEN "an empirical return level lies outside its order statistics"
       ELSE IF ~Monotone(e.v) THEN "return level decreases as the return period grows"
       ELSE ""

Why(e) ==
  CASE e.t = "ref" -> IF \E i \in Known(e.s) : fit[i].v # e.v
                      THEN "the same wind history gives two different values" ELSE ""
    [] e.t = "cell" -> IF e.c \in 1..NCells THEN WhyCell(e) ELSE "cell outside the domain"
    [] e.t = "axes" -> IF e.years # cfg.years THEN "wrong return periods in the result"
                       ELSE IF e.lon # cfg.lon THEN "wrong longitudes in the result"
                       ELSE IF e.lat # cfg.lat THEN "wrong latitudes in the result"
                       ELSE ""
    [] e.t = "range" -> \* confidence range of one cell and return period
         IF e.lo = -1 \/ e.hi = -1
         THEN IF e.lo = e.hi THEN "" ELSE "half of the confidence range is missing"
         ELSE IF e.lo <= e.hi THEN "" ELSE "confidence range is upside down"
    [] e.t = "fail" -> "the hazard calculation fails"
    [] OTHER -> "unknown event"

Apply(e) ==
  CASE e.t = "ref" -> fit' = Append(fit, [s |-> e.s, v |-> e.v]) /\ UNCHANGED <<cfg, seen>>
    [] e.t = "cell" -> seen' = seen \cup {e.c} /\ UNCHANGED <<cfg, fit>>
    [] OTHER -> UNCHANGED vars

WhyEnd == IF seen # 1..NCells THEN "some cell has no hazard value" ELSE ""

(* ---- exhaustive check of the rules on small histories ---- *)
F(s) == [w |-> <<1 + SeqMax(s), 2 + SeqMax(s)>>, p |-> <<7>>]   \* some function of the sample
MISS == [w |-> <<-1, -1>>, p |-> <<-1>>]
ZERO == [w |-> <<0, 0>>, p |-> <<0>>]
Configs == [years : {<<2, 5>>}, minrec : 1..2, method : {"GEV", "power", "emp"}, nsim : {2}, yps : {1, 2},
            files : [1..2 -> [year : 0..1, w : [1..2 -> {0, 3, 4}]]],
            lon : {<<1, 2>>}, lat : {<<1>>}, nx : {2}, ny : {1}]
Out(c) == LET s == Sample(c) IN
          IF Valid(s) = 0 THEN ZERO
          ELSE IF Counts(cfg.method) /\ Valid(s) < cfg.minrec THEN MISS ELSE F(s)
Init == \E c \in Configs : InitWith(c)
Next == \/ \E c \in 1..NCells : LET e == [t |-> "ref", s |-> Sample(c), v |-> F(Sample(c))] IN
               Known(e.s) = {} /\ Why(e) = "" /\ Apply(e)
        \/ \E c \in 1..NCells : LET e == [t |-> "cell", c |-> c, v |-> Out(c),
                                              lo |-> <<0, 0>>, hi |-> <<9, 9>>] IN
               Why(e) = "" /\ Apply(e)
Spec == Init /\ [][Next]_vars
\* two files of the same year and their maximum are interchangeable for annual maxima
Local == \A c \in 1..NCells :
            cfg.method = "GEV" => Len(Sample(c)) = cfg.nsim
\* a cell's outcome never depends on the other cell's winds
Independent == \A a, b \in 1..NCells : Sample(a) = Sample(b) => Out(a) = Out(b)
CanFinish == (\A c \in 1..NCells : Known(Sample(c)) # {}) =>
                 \A c \in 1..NCells \ seen : Why([t |-> "cell", c |-> c, v |-> Out(c), lo |-> <<0, 0>>, hi |-> <<9, 9>>]) = ""
=============================================================================
