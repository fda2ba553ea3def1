----------------------------- MODULE HistDataMC -----------------------------
(* All short record sequences over a small alphabet, with every candidate     *)
(* output the clauses could accept.                                           *)
EXTENDS HistData
VARIABLE steps
mvars == <<vars, steps>>
MM == 9999999
Cfgs == {[ident |-> i, filter |-> f, start |-> 1981, jx |-> 1500, jy |-> 500, miss |-> MM, hasr |-> FALSE,
          restrict |-> r, dom |-> <<0, 500, -100, 100>>, mode |-> "samples"] :
            i \in {"seasonnum"}, f \in BOOLEAN, r \in BOOLEAN}
MInit == (\E c \in Cfgs : InitWith(c)) /\ steps = 0
Ins == {[season |-> s[1], num |-> s[2], lon |-> x[1], p |-> x[2], dt |-> 60] :
          s \in {<<1980, 1>>, <<1981, 1>>}, x \in {<<0, 100000>>, <<100, 100000>>, <<100, MM>>, <<2000, 100000>>}}
In(i) ==
  LET p == IF prev = <<>> THEN [t |-> 0, lon |-> 0] ELSE prev[1] IN
  LET d == Abs(i.lon - p.lon) IN
  [season |-> i.season, num |-> i.num, lon |-> i.lon, lat |-> 0, year |-> i.season, jd |-> 1, t |-> p.t + i.dt,
   dlo |-> d, dhi |-> d, bear |-> IF i.lon >= p.lon THEN 9000 ELSE 27000, btol |-> 100, p |-> i.p, v |-> MM, r |-> MM, ls |-> 0]
Outs(i) == {[pos |-> pos, ind |-> n, ls |-> 0, speed |-> s, bear |-> b, brate |-> br, srate |-> sr, p |-> i.p,
             prate |-> pr, v |-> MM, r |-> MM, rrate |-> MM] :
              pos \in {0, Len(kept) + 1}, n \in {0, 1}, s \in {MM, i.dlo}, b \in {MM, i.bear},
              br \in {MM, 0}, sr \in {MM, 0}, pr \in {MM, 0}}
Ev(i, o) == [x \in DOMAIN i \cup {"out", "t0"} |-> IF x = "out" THEN o ELSE IF x = "t0" THEN "row" ELSE i[x]]
MNext == steps < 3 /\ steps' = steps + 1 /\
         \E r \in Ins : LET i == In(r) IN \E o \in Outs(i) : Why(Ev(i, o)) = "" /\ Apply(Ev(i, o))
MSpec == MInit /\ [][MNext]_mvars

\* no derived value crosses storms
NoCrossing == \A i \in DOMAIN kept :
   LET k == kept[i] IN
   (k.o.speed # MM \/ k.o.bear # MM \/ k.o.prate # MM) =>
       /\ i > 1 /\ k.e.num = kept[i - 1].e.num
       /\ (cfg.ident = "seasonnum" => k.e.season = kept[i - 1].e.season)
       /\ Abs(k.e.lon - kept[i - 1].e.lon) <= 1500
\* rates of rates need three records of the storm
NoCrossing2 == \A i \in DOMAIN kept :
   (kept[i].o.brate # MM \/ kept[i].o.srate # MM) => i > 2 /\ kept[i].o.ind = 0 /\ kept[i - 1].o.ind = 0
\* every kept record belongs to exactly one storm
Partition == \A i \in DOMAIN kept : kept[i].nth = 1 <=> kept[i].o.ind = 1
Filtered == cfg.filter => \A i \in DOMAIN kept : kept[i].e.season >= 1981
CountsAdd == Cardinality(Years) > 0 => SumCounts(FreqWant) = Len(Origins)
MissingOut == \A i \in DOMAIN kept : kept[i].o.prate # MM => kept[i].e.p # MM /\ kept[i - 1].e.p # MM
=============================================================================
