------------------------------ MODULE VortexMC ------------------------------
(* Discrete storms: an integer profile that rises to the radius of maximum    *)
(* wind and falls outside, tangential wind with inflow, and a forward motion  *)
(* added in the direction of rotation on the side Side of the motion.  The    *)
(* rules accept the profile, the field and the ring of every such storm in    *)
(* both hemispheres, and refuse them damaged.                                 *)
EXTENDS Vortex
CONSTANTS Speeds, Moves, FixedSign, OtherPeak
VARIABLES storm, out, pc
mvars == <<cfg, last, seen, storm, out, pc>>
Radii == <<10, 500, 1000, 1500, 3000>>
\* share of the maximum wind, in percent
Share == IF OtherPeak THEN <<2, 60, 80, 100, 45>> ELSE <<2, 60, 100, 80, 45>>
\* the eight directions and the motion, in 1/1000
Dir == <<<<1000, 0>>, <<707, 707>>, <<0, 1000>>, <<-707, 707>>, <<-1000, 0>>, <<-707, -707>>, <<0, -1000>>, <<707, -707>>>>
\* mirrored and turned direction numbers
Mir(i) == ((9 - i) % 8) + 1
Rot(i, k) == ((i - 1 + k) % 8) + 1
Cos(i) == Dir[((i + 16) % 8) + 1][1]     \* i: number of eighths of a turn
Storms == [hemi : {-1, 1}, vmax : Speeds, move : Moves, to : 1..8, side : -2..2]
Mirror(s) == [s EXCEPT !.hemi = -s.hemi, !.to = Mir(s.to), !.side = -s.side]
Turned(s, k) == [s EXCEPT !.to = Rot(s.to, k)]
V(s, j) == s.hemi * ((s.vmax * Share[j]) \div 100)
\* part of the motion at direction i
Asym(s, i) == (IF FixedSign THEN -1 ELSE s.hemi) * ((s.move * Cos(i - s.to - s.side)) \div 1000)
\* tangential wind at radius 3 (the maximum) and inflow of a tenth
Tan(s, i) == V(s, 3) + Asym(s, i)
U(s, i) == (-Dir[i][2] * Tan(s, i)) \div 1000 - (Dir[i][1] * Abs(Tan(s, i))) \div 10000
W(s, i) == (Dir[i][1] * Tan(s, i)) \div 1000 - (Dir[i][2] * Abs(Tan(s, i))) \div 10000
Prof(s) == [j \in 1..5 |-> [t |-> "v", r |-> Radii[j], v |-> V(s, j), m |-> V(Mirror(s), j), a |-> V(s, j), h |-> V(s, j),
                            z |-> 0, zm |-> 0, za |-> 0, rf |-> 0, g |-> 0]]
Field(s) == [i \in 1..8 |-> [t |-> "w", x |-> Dir[i][1], y |-> Dir[i][2], u |-> U(s, i), v |-> W(s, i),
                             um |-> U(Mirror(s), Mir(i)), vm |-> W(Mirror(s), Mir(i)),
                             \* turned by a quarter, and back
                             ur |-> W(Turned(s, 2), Rot(i, 2)), vr |-> -U(Turned(s, 2), Rot(i, 2)),
                             ua |-> U(s, i), va |-> W(s, i)]]
Wrap(a) == IF a > 180 THEN a - 360 ELSE IF a <= -180 THEN a + 360 ELSE a
Ring(s) == [i \in 1..8 |-> [t |-> "ring", a |-> Wrap(Wrap(45 * (i - s.to - s.side))), v |-> Abs(Tan(s, i))]]
Ev(k, s) == CASE k = "v" -> Prof(s) [] k = "w" -> Field(s) [] OTHER -> Ring(s)
MInit == \E s \in Storms, k \in {"v", "w", "ring"} :
           /\ k = "ring" => s.move > 0
           /\ InitWith([kind |-> k, hemi |-> s.hemi, vmax |-> s.vmax, single |-> TRUE, balance |-> FALSE, still |-> s.move = 0,
                        pc |-> 0, pe |-> 0, half |-> FALSE, reach |-> FALSE, n |-> IF k = "v" THEN 5 ELSE 8])
           /\ storm = s /\ out = Ev(k, s) /\ pc = "good"
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Damage == /\ pc = "good" /\ seen = 0 /\ Len(out) = cfg.n
          /\ \/ \E i \in 1..Len(out) : out' = Drop(out, i)
             \/ cfg.kind \in {"v", "w"} /\ \E i \in 1..Len(out) : out' = [out EXCEPT ![i].v = @ + 800]
             \/ cfg.kind = "w" /\ \E i \in 1..Len(out) : out' = [out EXCEPT ![i].um = -@ - 900]
             \/ cfg.kind = "v" /\ \E i \in 1..Len(out) : out' = [out EXCEPT ![i].m = BAD]
             \/ cfg.kind = "ring" /\ \E d \in {90, 135, 180} : out' = [i \in 1..8 |-> [out[i] EXCEPT !.a = Wrap(@ + d)]]
          /\ pc' = "bad" /\ UNCHANGED <<cfg, last, seen, storm>>
Feed == /\ pc \in {"good", "bad"} /\ out # <<>>
        /\ IF Why(Head(out)) = "" THEN Apply(Head(out)) /\ pc' = pc ELSE pc' = (IF pc = "good" THEN "refused-good" ELSE "refused") /\ UNCHANGED <<cfg, last, seen>>
        /\ out' = Tail(out) /\ UNCHANGED storm
Finish == /\ pc \in {"good", "bad"} /\ out = <<>>
          /\ pc' = (IF WhyEnd = "" THEN "accepted-" \o pc ELSE IF pc = "good" THEN "refused-good" ELSE "refused")
          /\ UNCHANGED <<cfg, last, seen, storm, out>>
MNext == Damage \/ Feed \/ Finish
MSpec == MInit /\ [][MNext]_mvars
StormAccepted == pc # "refused-good"
DamageRefused == pc # "accepted-bad"
MirrorTwice == Mirror(Mirror(storm)) = storm
=============================================================================
