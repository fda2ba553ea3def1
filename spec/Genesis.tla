------------------------------ MODULE Genesis ------------------------------
(* The storm generator itself: genesis, steps, termination, acceptance.      *)
(* Positions are cells -1..W (outside: <0 or >=W), the pressure deficit is a  *)
(* small integer, time counts steps of Dt hours.  A candidate is stepped      *)
(* until it leaves, dissipates or reaches the maximum number of points; it is *)
(* accepted only if it satisfies the validity rules.  Every accepted storm    *)
(* must satisfy the per-point contract of module Track; TLC checks this over  *)
(* all random choices.                                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS W, MaxN, Dt, Target

VARIABLES cand,     \* candidate: sequence of [x, d, r] (position, deficit, size)
          alive,    \* candidate still being stepped
          accepted  \* accepted storms: sequence of [id, pts]
vars == <<cand, alive, accepted>>

In(x) == x >= 0 /\ x < W
Sizes == {0, 1, 2}            \* 0: too small/large, 2: too large for genesis
Deficits == 0..3              \* 0: none, 1: dissipating when old, 2..3: storm

Init == cand = <<>> /\ alive = FALSE /\ accepted = <<>>

Start == /\ ~alive /\ cand = <<>> /\ Len(accepted) < Target
         /\ \E x \in 0..(W - 1), d \in 2..3, r \in {1} :
               cand' = <<[x |-> x, d |-> d, r |-> r]>>
         /\ alive' = TRUE /\ UNCHANGED accepted

Age == (Len(cand) - 1) * Dt
Dissipates(d) == IF Age + Dt > 12 THEN d < 2 ELSE d < 1
Step == /\ alive
        /\ IF Len(cand) = MaxN THEN alive' = FALSE /\ UNCHANGED cand
           ELSE \E dx \in {-1, 0, 1}, d \in Deficits, r \in Sizes :
                LET x == cand[Len(cand)].x + dx IN
                IF ~In(x) \/ Dissipates(d)
                THEN alive' = FALSE /\ UNCHANGED cand
                ELSE cand' = Append(cand, [x |-> x, d |-> d, r |-> r]) /\ UNCHANGED alive
        /\ UNCHANGED accepted

Valid == /\ Age >= 12
         /\ \A i \in 1..Len(cand) : cand[i].d > 0 /\ cand[i].r # 0
         /\ cand[1].r # 2
Finish == /\ ~alive /\ cand # <<>>
          /\ accepted' = IF Valid THEN Append(accepted, [id |-> Len(accepted), pts |-> cand])
                         ELSE accepted
          /\ cand' = <<>> /\ UNCHANGED alive
Next == Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllValid == \A k \in 1..Len(accepted) : LET s == accepted[k] IN
   /\ s.id = k - 1
   /\ Len(s.pts) \in 1..MaxN
   /\ (Len(s.pts) - 1) * Dt >= 12
   /\ \A i \in 1..Len(s.pts) : In(s.pts[i].x) /\ s.pts[i].d > 0 /\ s.pts[i].r # 0
   /\ \A i \in 2..Len(s.pts) : s.pts[i].x - s.pts[i-1].x \in {-1, 0, 1}
=============================================================================
