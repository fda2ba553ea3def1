--------------------------- MODULE InterpTrackMC ---------------------------
(* The rule for the times of the points, for all short tracks and steps:      *)
(* multiples of the step as long as they are not after the end, the last one  *)
(* moved to the end.  Every result of the rule is accepted, every result with *)
(* a point removed, doubled or moved is refused.                              *)
EXTENDS InterpTrack
CONSTANTS MaxGap, MaxRecs, Deltas, Slip
VARIABLES recs, out, pc
mvars == <<cfg, cur, pts, recs, out, pc>>
Vals == {10, 40}
RECURSIVE Times(_)
Times(n) == IF n = 1 THEN {<<0>>} ELSE UNION {{Append(s, s[Len(s)] + g) : g \in 1..MaxGap} : s \in Times(n - 1)}
Tracks == UNION {{[i \in 1..n |-> [t |-> s[i], x |-> 12 * i * i, y |-> -s[i], p |-> m[i], e |-> 50, r |-> 5, w |-> 20 + 7 * i]] :
                  s \in Times(n), m \in [1..n -> {-1, 12, 36}]} : n \in 1..MaxRecs}
\* value on the line, rounded
Val(r, t, f(_)) == LET i == Before(r, t) IN
  IF r[i].t = t THEN f(r[i]) ELSE f(r[i]) + ((f(r[i + 1]) - f(r[i])) * (t - r[i].t)) \div (r[i + 1].t - r[i].t)
PVal(r, t) == LET w == Valid(r) IN
  IF Len(w) = 0 THEN -1 ELSE IF Len(w) = 1 THEN w[1].p
  ELSE IF t < First(w).t \/ t > Last(w).t THEN -1 ELSE Val(w, t, P)
WVal(r, t) == LET w == Valid(r) IN
  IF Len(w) = 0 THEN 0 ELSE IF Len(w) = 1 THEN w[1].w
  ELSE IF t < First(w).t \/ t > Last(w).t THEN 0 ELSE Val(w, t, W)
At(r, t) == [t |-> "point", time |-> t, cal |-> t, age |-> t - r[1].t, x |-> Val(r, t, X), y |-> Val(r, t, Y), p |-> PVal(r, t),
             e |-> Val(r, t, E), r |-> Val(r, t, R), v |-> 0, d |-> 0, b |-> 0, z |-> 0, n |-> 1, w |-> WVal(r, t)]
\* number of points after the first
N(r, d) == IF Last(r).t = 0 THEN 0 ELSE IF Last(r).t \div d = 0 THEN 1 ELSE Last(r).t \div d
Result(r, d) == [k \in 1..(N(r, d) + 1) |-> At(r, IF k = N(r, d) + 1 THEN (IF Slip /\ d * (k - 1) < Last(r).t THEN d * (k - 1) ELSE Last(r).t) ELSE d * (k - 1))]
MInit == \E r \in Tracks, d \in Deltas :
           /\ InitWith([tracks |-> <<[recs |-> r, linear |-> TRUE, id |-> <<1, 1>>]>>, delta |-> d, tol |-> 1])
           /\ recs = r /\ out = <<[t |-> "track", k |-> 1, id |-> <<1, 1>>]>> \o Result(r, d) /\ pc = "good"
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Twice(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))
Moved(s, i, f, dv) == [s EXCEPT ![i] = [@ EXCEPT ![f] = @ + dv]]
\* damage the result
Damage == /\ pc = "good" /\ cur = 0
          /\ \E i \in 2..Len(out) :
               \/ out' = Drop(out, i)
               \/ out' = Twice(out, i)
               \/ \E f \in {"time", "x", "p", "cal", "n"} : out' = Moved(out, i, f, 5)
          /\ pc' = "bad" /\ UNCHANGED <<cfg, cur, pts, recs>>
Feed == /\ pc \in {"good", "bad"} /\ out # <<>>
        /\ IF Why(Head(out)) = "" THEN Apply(Head(out)) /\ pc' = pc ELSE pc' = (IF pc = "good" THEN "refused-good" ELSE "refused") /\ UNCHANGED <<cfg, cur, pts>>
        /\ out' = Tail(out) /\ UNCHANGED recs
Finish == /\ pc \in {"good", "bad"} /\ out = <<>>
          /\ pc' = (IF WhyEnd = "" THEN "accepted-" \o pc ELSE IF pc = "good" THEN "refused-good" ELSE "refused")
          /\ UNCHANGED <<cfg, cur, pts, recs, out>>
MNext == Damage \/ Feed \/ Finish
MSpec == MInit /\ [][MNext]_mvars
RuleAccepted == pc # "refused-good"
DamageRefused == pc # "accepted-bad"
=============================================================================
