---------------------------- MODULE EvalStatsMC ----------------------------
(* Two files of two storms with two positions each on a small grid: every     *)
(* position inside counts in exactly one cell, the statistics over the files  *)
(* follow from those of the files alone, and reports with a position missing, *)
(* counted twice or in another cell are refused.                              *)
EXTENDS EvalStats
VARIABLES a, b, c2, step
mvars == <<vars, a, b, c2, step>>
Pos == {<<x, y, p>> : x \in {-1, 0, 2, 3}, y \in {1, 4}, p \in {0, 95010}}
MInit == /\ InitWith([u |-> 2, nx |-> 2, ny |-> 2, s |-> 2, px |-> 2, py |-> 2, w |-> 4, h |-> 4])
         /\ a \in Pos /\ b \in Pos /\ c2 \in {<<0, 3, 98020>>, <<2, 1, 93000>>, <<-1, 0, 90000>>} /\ step = 0
MNext == step = 0 /\ step' = 1 /\ UNCHANGED <<vars, a, b, c2>>
MSpec == MInit /\ [][MNext]_mvars
F1 == <<<<a, c2>>, <<b>>>>
F2 == <<<<c2, b>>>>
F == <<F1, F2>>
Cells == [c \in 1..4 |-> c]
Within(p) == p[1] >= 0 /\ p[1] < 4 /\ p[2] >= 0 /\ p[2] < 4
OneCell == Sum([c \in 1..4 |-> Positions(F1, c, 2, 2, 2)]) = Cardinality({k \in 1..3 : Within(<<a, c2, b>>[k])})
R(f, c) == Rate(Positions(f, c, 2, 2, 2), 1)
Dens == [t |-> "density", files |-> F, years |-> 1,
         mean |-> [c \in 1..4 |-> (R(F1, c) + R(F2, c)) \div 2],
         low |-> [c \in 1..4 |-> Percentile(<<R(F1, c), R(F2, c)>>, 5)],
         high |-> [c \in 1..4 |-> Percentile(<<R(F1, c), R(F2, c)>>, 95)]]
Pres == [t |-> "pressure", files |-> F,
         mean |-> [c \in 1..4 |-> MeanOf(Some(<<MeanOf(Values(F1, c)), MeanOf(Values(F2, c))>>))],
         min |-> [c \in 1..4 |-> MeanOf(Some(<<Least(Values(F1, c)), Least(Values(F2, c))>>))]]
Mins == [t |-> "minima", files |-> F, list |-> <<StormMin(F1[1]), StormMin(F1[2]), StormMin(F2[1])>>]
GoodAccepted == Why(Dens) = "" /\ Why(Pres) = "" /\ Why(Mins) = ""
BadRefused == /\ \A c \in 1..4 : Why([Dens EXCEPT !.mean[c] = @ + 5000]) # ""
              /\ \A c \in 1..4 : Dens.mean[c] > 0 => Why([Dens EXCEPT !.mean[c] = @ - 5000]) # ""
              /\ \A c \in 1..4 : Pres.mean[c] > 0 => Why([Pres EXCEPT !.mean[c] = 0, !.min[c] = 0]) # ""
              /\ \A k \in 1..3 : Why([Mins EXCEPT !.list[k] = IF @ = 0 THEN 90000 ELSE 0]) # ""
\* files in another order give the same means
Order == Why([Dens EXCEPT !.files = <<F2, F1>>]) = "" /\ Why([Pres EXCEPT !.files = <<F2, F1>>]) = ""
=============================================================================
