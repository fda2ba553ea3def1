---------------------------- MODULE LocalWindMC ----------------------------
(* The sectors are a partition of all directions, each 45 degrees wide and   *)
(* centred on its direction; the weights of a series agree with the sector    *)
(* multipliers at the eight directions and never leave their neighbours.      *)
EXTENDS LocalWind
CONSTANT Step
VARIABLE b
M == <<1000, 1200, 800, 950, 1400, 700, 1100, 900>>
MInit == b = 0 /\ InitWith([n |-> 0, tol |-> 0])
MNext == b + Step < Circle /\ b' = b + Step /\ UNCHANGED vars
MSpec == MInit /\ [][MNext]_<<vars, b>>
Distance(x, y) == LET d == Abs(x - y) IN IF d > 180000 THEN Circle - d ELSE d
Nearest == \A s \in 1..8 : Distance(b, 45000 * (Sector(b) - 1)) <= Distance(b, 45000 * (s - 1))
Single == Cardinality(Sectors(b)) = 1 \/ \E s \in 1..8 : Abs(Distance(b, 45000 * (s - 1)) - 22500) <= 1
AtDirections == b % 45000 = 0 => Between(b, M) = M[Sector(b)]
Bounded == LET k == b \div 45000 IN
           LET x == M[k + 1] IN LET y == M[((k + 1) % 8) + 1] IN
           Between(b, M) >= (IF x < y THEN x ELSE y) - 1 /\ Between(b, M) <= (IF x < y THEN y ELSE x)
=============================================================================
