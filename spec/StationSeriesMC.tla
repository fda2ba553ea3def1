-------------------------- MODULE StationSeriesMC --------------------------
(* An extraction that keeps one list per station and process, with storms    *)
(* shared among the processes in any way and steps of the processes in any    *)
(* order, and a collection at the end.  The result is accepted by the         *)
(* trace specification; without the collection it is not.                     *)
EXTENDS StationSeries
CONSTANTS Procs, NStorms, NSteps, Collect
VARIABLES owner, pos, mine, pc
mvars == <<cfg, steps, ser, tops, lows, owner, pos, mine, pc>>

Stations == <<[x |-> 0, y |-> 0], [x |-> 3, y |-> 1], [x |-> 9, y |-> 9]>>
\* wind field of step i of storm s: two by two points, values by place and step
StepOf(s, i) == [t |-> "step", storm |-> s, time |-> 10 * s + i, gx |-> <<i - 1, i + 1>>, gy |-> <<0, 2>>,
                 s |-> <<<<i, i + 1>>, <<s, s + 1>>>>, u |-> <<<<0, 0>>, <<0, 0>>>>, v |-> <<<<0, 0>>, <<0, 0>>>>,
                 p |-> <<<<50 - i, 40>>, <<30, 20 + s>>>>]
RowOf(k, e) ==
  IF Within(k, e)
  THEN LET q == CHOOSE q \in Points(k, e) : TRUE IN
       [time |-> e.time, x |-> cfg.st[k].x, y |-> cfg.st[k].y, s |-> e.s[q[1]][q[2]], u |-> 0, v |-> 0, p |-> e.p[q[1]][q[2]], sb |-> 0, cb |-> 0]
  ELSE [time |-> e.time, x |-> cfg.st[k].x, y |-> cfg.st[k].y, s |-> 0, u |-> 0, v |-> 0, p |-> e.p[1][1], sb |-> 0, cb |-> 0]
MInit == /\ InitWith([st |-> Stations, storms |-> NStorms, tol |-> 0])
         /\ owner \in [1..NStorms -> Procs]
         /\ pos = [s \in 1..NStorms |-> 0]
         /\ mine = [r \in Procs |-> <<>>]
         /\ pc = "work"
\* a process takes the next step of one of its storms, finishing a storm before the next
Busy(r, s) == owner[s] = r /\ pos[s] < NSteps /\ \A q \in 1..NStorms : (owner[q] = r /\ q # s) => pos[q] \in {0, NSteps}
MStep(r, s) == /\ pc = "work" /\ Busy(r, s)
               /\ LET e == StepOf(s, pos[s] + 1) IN
                  /\ steps' = [steps EXCEPT ![s] = Append(@, e)]
                  /\ mine' = [mine EXCEPT ![r] = Append(@, [k \in 1..Len(Stations) |-> RowOf(k, e)])]
               /\ pos' = [pos EXCEPT ![s] = @ + 1]
               /\ UNCHANGED <<cfg, ser, tops, lows, owner, pc>>
RECURSIVE All(_)
All(R) == IF R = {} THEN <<>> ELSE LET r == CHOOSE r \in R : \A q \in R : r <= q IN mine[r] \o All(R \ {r})
Rows(k, l) == [i \in DOMAIN l |-> l[i][k]]
Blows(rows) == \E i \in DOMAIN rows : rows[i].s > 0
\* without collection every process writes its own lists; the last one stays
Writes(l) == ser' = [k \in DOMAIN ser |-> LET rows == Rows(k, l) IN IF Blows(rows) THEN rows ELSE ser[k]]
MEnd == /\ pc = "work" /\ \A s \in 1..NStorms : pos[s] = NSteps
        /\ IF Collect THEN Writes(All(Procs)) ELSE \E r \in Procs : Writes(mine[r])
        /\ pc' = "done"
        /\ UNCHANGED <<cfg, steps, tops, lows, owner, pos, mine>>
MNext == MEnd \/ \E r \in Procs, s \in 1..NStorms : MStep(r, s)
MSpec == MInit /\ [][MNext]_mvars
Complete == pc = "done" =>
  \A k \in DOMAIN ser : IF ser[k] = <<>> THEN ~MustSeries(k)
                        ELSE Len(ser[k]) = Total /\ Matches(k, ser[k])
NoneOutside == pc = "done" => ser[3] = <<>>
=============================================================================
