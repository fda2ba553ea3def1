---------------------------- MODULE SamplingMC -----------------------------
(* All small tables: the rule for drawing gives back the distribution.        *)
EXTENDS Sampling
CONSTANTS N, K
VARIABLE done
mvars == <<cfg, done>>
Weights == [1..N -> 0..K]
MInit == /\ \E a, b \in Weights : /\ Total(a) > 0
                                 /\ InitWith([den |-> Total(a) + Total(b), w |-> <<a, b>>, xs |-> <<1, 2>>, ys |-> [i \in 1..N |-> i]])
         /\ done = FALSE
MNext == ~done /\ done' = TRUE /\ UNCHANGED cfg
MSpec == MInit /\ [][MNext]_mvars
A == cfg.w[1]
U == 1..cfg.den
\* den * Total numbers: a fine enough division of the unit interval to count exactly
Fine == cfg.den * Total(A)
DrawFine(q) == LET s == {i \in DOMAIN A : Sum(A, i) * Fine >= q * Total(A)} IN CHOOSE i \in s : \A j \in s : i <= j
FirstReaches == \A q \in U : LET i == Draw(A, q) IN
                  /\ Sum(A, i) * cfg.den >= q * Total(A)
                  /\ i = 1 \/ Sum(A, i - 1) * cfg.den < q * Total(A)
Increases == \A q \in U : q + 1 \in U => Draw(A, q) <= Draw(A, q + 1)
Positive == \A q \in U : A[Draw(A, q)] > 0
Recovers == \A i \in DOMAIN A : Cardinality({q \in 1..Fine : DrawFine(q) = i}) * Total(A) = A[i] * Fine
OriginPositive == \A q, r \in U : LET o == Origin(q, r) IN cfg.w[o[1]][o[2]] > 0
\* each cell gets as many of the pairs of numbers as its weight (in a division fine enough for both)
OriginRecovers == \A i \in 1..2 : Total(cfg.w[i]) * cfg.den = Cardinality({q \in U : Draw(Columns, q) = i}) * (Total(A) + Total(cfg.w[2]))
=============================================================================
