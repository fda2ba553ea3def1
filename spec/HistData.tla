------------------------------ MODULE HistData ------------------------------
(* Historical storm records turned into samples.  Input records arrive one    *)
(* by one (event "row"); for each of them the specification decides whether   *)
(* it is kept, whether it starts a storm, and which of the derived values     *)
(* are numbers and which are missing.  The event "end" carries the sample     *)
(* files, which must be selections of the kept records.                       *)
(*                                                                            *)
(* Positions are in hundredths of a degree, times in minutes, and all other   *)
(* values in hundredths of their unit.                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

VARIABLES cfg,     \* ident, filter, start, jx, jy, miss, hasr, restrict, dom, mode
          prev,    \* the previous input record, <<>> before the first
          in,      \* the storm of the previous input record is kept (restriction to a domain)
          kept     \* kept records, in order
vars == <<cfg, prev, in, kept>>
InitWith(c) == cfg = c /\ prev = <<>> /\ in = TRUE /\ kept = <<>>

Abs(x) == IF x < 0 THEN -x ELSE x
Wrap(d) == ((d + 18000) % 36000) - 18000           \* longitude difference, in -18000..17999
Close(a, b, tol) == Abs(a - b) <= tol

SameKey(a, b) ==
  CASE cfg.ident = "index" -> b.idx = 0
    [] cfg.ident = "serial" -> a.ser = b.ser
    [] cfg.ident = "seasonnum" -> a.season = b.season /\ a.num = b.num
    [] OTHER -> a.num = b.num
InDomain(e) == /\ e.lon >= cfg.dom[1] /\ e.lon <= cfg.dom[2]
               /\ e.lat >= cfg.dom[3] /\ e.lat <= cfg.dom[4]
\* the storm of record e is one of the chosen storms
Chosen(e) == IF ~cfg.restrict THEN TRUE
             ELSE IF prev # <<>> /\ SameKey(prev[1], e) THEN in ELSE InDomain(e)
InSeason(e) == ~cfg.filter \/ e.season < 0 \/ e.season >= cfg.start
Keep(e) == Chosen(e) /\ InSeason(e)

Last0 == kept[Len(kept)]
Starts(e) == \/ kept = <<>>
             \/ ~SameKey(prev[1], e)
             \/ Abs(Wrap(e.lon - Last0.e.lon)) > cfg.jx
             \/ Abs(e.lat - Last0.e.lat) > cfg.jy
Nth(e) == IF Starts(e) THEN 1 ELSE Last0.nth + 1
Dt(e) == e.t - Last0.e.t

M == cfg.miss
Valid(x) == x # M
\* (change * 60 / dt) compared with a reported rate
Rate(got, change, dt, tol) == Close(got, (change * 60) \div dt, tol)
RTol(dt) == 3 + (150 \div Abs(dt))

SpeedWhy(e, o) ==
  IF Nth(e) = 1 THEN (IF o.speed = M THEN "" ELSE "the first record of a storm has a speed")
  ELSE IF Dt(e) <= 0 THEN (IF o.speed = M \/ e.dhi <= 2 THEN "" ELSE "a speed is given without time passing")
  ELSE LET lo == (e.dlo * 60) \div Dt(e) IN
       LET hi == (e.dhi * 60) \div Dt(e) IN
       IF lo > 20050 THEN (IF o.speed = M THEN "" ELSE "an impossible speed is given as a number")
       ELSE IF hi > 19950 /\ o.speed = M THEN ""
       ELSE IF o.speed >= lo - 2 /\ o.speed <= hi + 2 /\ (Valid(o.speed) \/ cfg.mode = "tracks") THEN ""
       ELSE "a speed is not the distance between two records of the storm divided by the time between them"
BearWhy(e, o) ==
  IF Nth(e) = 1 THEN (IF o.bear = M THEN "" ELSE "the first record of a storm has a bearing")
  ELSE IF e.dhi <= 2 THEN ""
  ELSE IF cfg.mode = "samples" /\ ~Valid(o.bear) THEN "a bearing between two records of a storm is missing"
  ELSE IF Abs(Wrap(o.bear - e.bear)) <= e.btol THEN ""
  ELSE "a bearing is not the direction from the previous record of the storm"
BearRateWhy(e, o) ==
  IF Nth(e) <= 2 THEN (IF o.brate = M THEN "" ELSE "a bearing rate is given for the first or second record of a storm")
  ELSE IF Dt(e) = 0 THEN (IF o.brate = M \/ o.bear = Last0.o.bear THEN "" ELSE "a bearing rate is given without time passing")
  ELSE IF ~Valid(o.brate) THEN "a bearing rate is missing"
  ELSE LET d == Wrap(o.bear - Last0.o.bear) IN
       IF Rate(o.brate, d, Dt(e), RTol(Dt(e))) THEN ""
       ELSE IF Abs(Abs(d) - 18000) <= 3 /\ Rate(-o.brate, d, Dt(e), RTol(Dt(e))) THEN ""
       ELSE "a bearing rate is not the change of bearing over the time between two records"
SpeedRateWhy(e, o) ==
  IF Nth(e) <= 2 \/ ~Valid(o.speed) \/ ~Valid(Last0.o.speed) \/ Dt(e) = 0
  THEN (IF o.srate = M THEN "" ELSE "a speed rate is given where one of the two speeds is missing")
  ELSE IF ~Valid(o.srate) THEN "a speed rate is missing"
  ELSE IF Rate(o.srate, o.speed - Last0.o.speed, Dt(e), RTol(Dt(e))) THEN ""
  ELSE "a speed rate is not the change of speed over the time between two records"
\* a plain value: w = M when the input is missing or impossible
ValueWhy(got, w, tol, name) ==
  IF w = M THEN (IF got = M THEN "" ELSE "a missing or impossible " \o name \o " enters as a number")
  ELSE IF Valid(got) /\ Close(got, w, tol) THEN "" ELSE "a " \o name \o " is not the recorded one"
PRateWhy(e, o) ==
  IF Nth(e) = 1 \/ ~Valid(o.p) \/ ~Valid(Last0.o.p) \/ Dt(e) = 0
  THEN (IF o.prate = M THEN "" ELSE "a pressure rate is given where one of the two pressures is missing")
  ELSE LET w == ((o.p - Last0.o.p) * 60) \div Dt(e) IN
       IF Abs(w) > 1000 + RTol(Dt(e)) THEN (IF o.prate = M THEN "" ELSE "an impossible pressure rate is given as a number")
       ELSE IF o.prate = M THEN (IF Abs(w) > 1000 - RTol(Dt(e)) THEN "" ELSE "a pressure rate is missing")
       ELSE IF Close(o.prate, w, RTol(Dt(e))) THEN ""
       ELSE "a pressure rate is not the change of pressure over the time between two records"
RRateWhy(e, o) ==
  IF ~cfg.hasr THEN ""
  ELSE IF Nth(e) = 1 \/ ~Valid(o.r) \/ ~Valid(Last0.o.r) \/ Dt(e) = 0
  THEN (IF o.rrate = M THEN "" ELSE "a rate of size change is given where one of the two sizes is missing")
  ELSE IF Valid(o.rrate) /\ Rate(o.rrate, o.r - Last0.o.r, Dt(e), RTol(Dt(e))) THEN ""
  ELSE "a rate of size change is not the change of size over the time between two records"

FirstOf(s) == LET bad == SelectSeq(s, LAMBDA x : x # "") IN IF bad = <<>> THEN "" ELSE bad[1]

RowWhy(e) ==
  LET o == e.out IN
  IF ~Keep(e) THEN (IF o.pos = 0 THEN "" ELSE "a record outside the chosen seasons or storms is kept")
  ELSE IF o.pos = 0 THEN "a record is lost"
  ELSE IF o.pos # Len(kept) + 1 THEN "records are not kept in order, each once"
  ELSE IF (o.ind = 1) # Starts(e) THEN
       (IF Starts(e) THEN "two storms are joined" ELSE "a storm is split")
  ELSE IF o.ind \notin {0, 1} THEN "the start of a storm is not marked"
  ELSE IF o.ls # e.ls THEN "the land flag of a record is wrong"
  ELSE IF cfg.mode = "tracks"
  THEN FirstOf(<<IF o.age = (IF Starts(e) THEN e.age0 ELSE o.age) THEN "" ELSE "the age of a storm does not start at zero",
                 IF Starts(e) \/ o.age - Last0.o.age = Dt(e) THEN "" ELSE "ages within a storm are not the times between records",
                 IF o.when = e.t THEN "" ELSE "the time of a record is changed",
                 SpeedWhy(e, o), BearWhy(e, o),
                 ValueWhy(o.p, e.p, 1, "pressure"), ValueWhy(o.v, e.v, 1 + e.v \div 300, "wind speed"),
                 ValueWhy(o.r, e.r, 1 + e.r \div 300, "size")>>)
  ELSE FirstOf(<<SpeedWhy(e, o), BearWhy(e, o), BearRateWhy(e, o), SpeedRateWhy(e, o),
                 ValueWhy(o.p, e.p, 1, "pressure"), PRateWhy(e, o),
                 ValueWhy(o.v, e.v, 1 + e.v \div 300, "wind speed"),
                 IF cfg.hasr THEN ValueWhy(o.r, e.r, 1 + e.r \div 300, "size") ELSE "",
                 RRateWhy(e, o)>>)

-----------------------------------------------------------------------------
\* Sample files
Sel(test(_), f(_)) == LET s == SelectSeq(kept, test) IN [i \in DOMAIN s |-> f(s[i])]
IsFirst(k) == k.nth = 1
N0 == Len(kept)
\* positions of first records whose storm has a second one, and of second records
Firsts2 == LET idx == SelectSeq([i \in 1..N0 |-> i], LAMBDA i : kept[i].nth = 1 /\ i < N0 /\ kept[i + 1].nth = 2)
           IN [j \in DOMAIN idx |-> kept[idx[j]]]
SeqClose(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Close(a[i], b[i], tol)

Years == {kept[i].e.year : i \in DOMAIN kept}
Origins == SelectSeq(kept, IsFirst)
CountWhere(P(_)) == Len(SelectSeq(Origins, P))
FreqWant == IF Cardinality(Years) = 0 THEN <<>>
            ELSE [j \in 1..(Max(Years) - Min(Years) + 1) |->
                    <<Min(Years) + j - 1, CountWhere(LAMBDA k : k.e.year = Min(Years) + j - 1)>>]
OriginSeason(k) == IF k.e.season >= 0 THEN k.e.season ELSE k.e.year
Seasons == {OriginSeason(Origins[i]) : i \in DOMAIN Origins}
InReg(k, d) == k.e.lon > d[1] /\ k.e.lon < d[2] /\ k.e.lat > d[3] /\ k.e.lat < d[4]
RegWant(d) == [j \in 1..(Max(Seasons) - Min(Seasons)) |->
                 <<Min(Seasons) + j - 1,
                   CountWhere(LAMBDA k : OriginSeason(k) = Min(Seasons) + j - 1 /\ InReg(k, d))>>]
SumCounts(s) == FoldSeq(LAMBDA x, acc : acc + x[2], 0, s)
DayCount(src, day) == Len(SelectSeq(src, LAMBDA k : k.e.jd = day))

\* The region over which storms are simulated must cover the domain of interest d and the way of
\* every storm up to its last record inside d, and must not exceed the extent of the storms entering d.
Enter(i, d) == kept[i].e.lon >= d[1] /\ kept[i].e.lon <= d[2] /\ kept[i].e.lat >= d[3] /\ kept[i].e.lat <= d[4]
StormOf[i \in 0..N0] == IF i = 0 THEN 0 ELSE StormOf[i - 1] + (IF kept[i].nth = 1 THEN 1 ELSE 0)
RegionWhy(g, d) ==
  LET storm == TLCEval(StormOf) IN
  LET must == {j \in 1..N0 : \E i \in j..N0 : storm[i] = storm[j] /\ Enter(i, d)} IN
  LET may == {j \in 1..N0 : \E i \in 1..N0 : storm[i] = storm[j] /\ Enter(i, d)} IN
  LET X(s) == {kept[j].e.lon : j \in s} IN
  LET Y(s) == {kept[j].e.lat : j \in s} IN
  IF \/ g[1] > Min(X(must) \cup {d[1]}) \/ g[2] < Max(X(must) \cup {d[2]})
     \/ g[3] > Min(Y(must) \cup {d[3]}) \/ g[4] < Max(Y(must) \cup {d[4]})
  THEN "the simulation region does not cover the storms on their way into the domain"
  ELSE IF \/ g[1] <= Min(X(may) \cup {d[1]}) - 100 \/ g[2] >= Max(X(may) \cup {d[2]}) + 100
          \/ g[3] <= Min(Y(may) \cup {d[3]}) - 100 \/ g[4] >= Max(Y(may) \cup {d[4]}) + 100
  THEN "the simulation region is larger than the extent of the storms entering the domain"
  ELSE ""

Same(got, want, what) == IF got = want THEN "" ELSE what
EndWhy(e) ==
  LET f == e.files IN
  LET F2 == Firsts2 IN
  FirstOf(<<
    Same(f.n, N0, "the number of kept records is wrong"),
    Same(f.origin, Sel(IsFirst, LAMBDA k : <<k.e.lon, k.e.lat, k.o.ls>>), "the origins are not the first positions of the storms"),
    Same(f.init, [i \in DOMAIN F2 |-> <<F2[i].e.lon, F2[i].e.lat, F2[i].o.ls>>], "the initial positions are not those of the storms with several records"),
    IF SeqClose(f.ispeed, Sel(LAMBDA k : k.nth = 2, LAMBDA k : k.o.speed), 1) THEN "" ELSE "the initial speeds are not those of the second records",
    Same(f.ibear, Sel(LAMBDA k : k.nth = 2, LAMBDA k : k.o.bear), "the initial bearings are not those of the second records"),
    Same(f.nspeed, Sel(LAMBDA k : k.nth > 2, LAMBDA k : k.o.speed), "the non-initial speeds are not those of the later records"),
    Same(f.nbear, Sel(LAMBDA k : k.nth > 2, LAMBDA k : k.o.bear), "the non-initial bearings are not those of the later records"),
    Same(f.ip, Sel(IsFirst, LAMBDA k : k.o.p), "the initial pressures are not those of the first records"),
    Same(f.np, Sel(LAMBDA k : k.nth > 1 /\ Valid(k.o.p), LAMBDA k : k.o.p), "the non-initial pressures are not the valid ones of the later records"),
    IF cfg.hasr THEN Same(f.ir, Sel(IsFirst, LAMBDA k : k.o.r), "the initial sizes are not those of the first records") ELSE "",
    IF cfg.hasr THEN Same(f.nr, Sel(LAMBDA k : k.nth > 1 /\ Valid(k.o.r), LAMBDA k : k.o.r), "the non-initial sizes are not the valid ones of the later records") ELSE "",
    Same(f.oyear, [i \in DOMAIN Origins |-> OriginSeason(Origins[i])], "the seasons of the storms are wrong"),
    IF Cardinality(Years) > 1 THEN Same(f.freq, FreqWant, "the yearly counts are wrong") ELSE "",
    IF Cardinality(Years) > 1 /\ SumCounts(f.freq) # Len(Origins) THEN "the yearly counts do not add up to the number of storms" ELSE "",
    Same(f.jdays, [i \in DOMAIN Origins |-> Origins[i].e.jd], "the days of formation are wrong"),
    IF \A d \in 1..365 : f.jgen[d] = DayCount(Origins, d) THEN "" ELSE "the counts of storms by day of formation are wrong",
    IF \A d \in 1..365 : f.jobs[d] = DayCount(kept, d) THEN "" ELSE "the counts of records by day of the year are wrong",
    IF Cardinality(Seasons) > 1 THEN Same(f.reg, RegWant(e.reg), "the yearly counts within the region are wrong") ELSE "",
    IF Cardinality(Seasons) > 1
    THEN (IF Abs(f.mean * Cardinality(Min(Seasons)..(Max(Seasons) - 1)) - 100 * SumCounts(RegWant(e.reg)))
               <= Cardinality(Min(Seasons)..(Max(Seasons) - 1)) THEN "" ELSE "the mean yearly count is wrong") ELSE "",
    RegionWhy(f.region, e.wf)
  >>)
\* lowest valid pressure and highest valid wind of each storm, the missing value if there is none
TEndWhy(e) ==
  LET storm == TLCEval(StormOf) IN
  LET P(s) == {kept[i].o.p : i \in {j \in 1..N0 : storm[j] = s}} \ {M} IN
  LET V(s) == {kept[i].o.v : i \in {j \in 1..N0 : storm[j] = s}} \ {M} IN
  IF e.n # N0 THEN "the number of kept records is wrong"
  ELSE IF e.storms # [i \in DOMAIN Origins |-> i] THEN "the storms are not numbered consecutively"
  ELSE IF e.minp # [i \in DOMAIN Origins |-> IF P(i) = {} THEN M ELSE Min(P(i))] THEN "the lowest pressure of a storm is not the lowest recorded one"
  ELSE IF e.maxv # [i \in DOMAIN Origins |-> IF V(i) = {} THEN M ELSE Max(V(i))] THEN "the highest wind of a storm is not the highest recorded one"
  ELSE ""

Why(e) == CASE e.t0 = "row" -> RowWhy(e)
            [] e.t0 = "end" -> EndWhy(e)
            [] e.t0 = "tend" -> TEndWhy(e)
            [] OTHER -> "unknown event"
Apply(e) ==
  /\ cfg' = cfg
  /\ IF e.t0 # "row" THEN UNCHANGED <<prev, in, kept>>
     ELSE /\ prev' = <<e>>
          /\ in' = Chosen(e)
          /\ kept' = IF Keep(e) THEN Append(kept, [e |-> e, o |-> e.out, nth |-> Nth(e)]) ELSE kept
WhyEnd == ""
=============================================================================
