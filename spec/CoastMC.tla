------------------------------ MODULE CoastMC ------------------------------
(* Every quadrilateral on a small lattice, simple or not, and every segment   *)
(* between points off the lattice: the two ways of telling land from sea      *)
(* agree, a segment changes sides exactly if it crosses the coast an odd      *)
(* number of times, and reversing the track or the coast has the effect it    *)
(* should.                                                                    *)
EXTENDS Coast
CONSTANT Rule
VARIABLES shape, at
mvars == <<vars, shape, at>>
V == {0, 4, 8} \X {0, 4, 8}
\* in between, where no three points of interest are in line too often
Pts == <<<<1, 2>>, <<5, 1>>, <<3, 5>>, <<7, 6>>, <<6, 3>>, <<-1, 5>>, <<9, 10>>, <<2, 9>>>>
P == {Pts[i] : i \in 1..8}
MInit == /\ InitWith([poly |-> <<>>, lons |-> <<>>, lats |-> <<>>])
         /\ shape \in {<<a, b, c, d>> : a \in {<<0, 0>>, <<4, 0>>}, b \in V, c \in V, d \in V}
         /\ \A i \in 1..4 : \A j \in 1..4 : i # j => shape[i] # shape[j]
         /\ at = 0
MNext == at < 8 /\ at' = at + 1 /\ UNCHANGED <<vars, shape>>
MSpec == MInit /\ [][MNext]_mvars
p0 == Pts[IF at = 0 THEN 1 ELSE at]
Odd(n) == n % 2 = 1
Hit(p, q) == Cardinality({i \in DOMAIN Edges(shape) : Crosses(p, q, Edges(shape)[i][1], Edges(shape)[i][2])})
Side(p) == IF Rule = "upward"
           THEN LET E == Edges(shape) IN Inland(p, shape) /\ Cardinality({i \in DOMAIN E : Up(E[i], p)}) > 0
           ELSE Inland(p, shape)
Off(p) == \A i \in DOMAIN shape : ~OnSegment(p, Edges(shape)[i][1], Edges(shape)[i][2])
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
TwoWays == Off(p0) => Odd(CrossingNumber(p0, shape)) = Odd(Abs(WindingNumber(p0, shape)))
Parity == at > 0 => \A q \in P : General(shape, <<p0, q>>) => (Side(p0) # Side(q)) = Odd(Hit(p0, q))
Orientation == Off(p0) => Inland(p0, shape) = Inland(p0, Rev(shape))
Turned == at > 0 => \A q \in P : General(shape, <<p0, q>>) =>
            \A on \in BOOLEAN : Count(shape, <<<<p0, q>>>>, on) = Count(shape, <<<<q, p0>>>>, ~on)
OneWay == at > 0 => \A q \in P : General(shape, <<p0, q>>) =>
            Total(Count(shape, <<<<p0, q>>>>, TRUE)) = 0 \/ Total(Count(shape, <<<<p0, q>>>>, FALSE)) = 0
\* a report of the true counts is accepted, one with a crossing elsewhere refused
Told == at > 0 => \A q \in P : General(shape, <<p0, q>>) =>
  LET tr == <<<<p0, q, p0>>>>  a == Count(shape, tr, TRUE)  b == Count(shape, tr, FALSE) IN
  /\ CoastWhy(shape, tr, Exact(a), Exact(b)) = ""
  /\ Total(a) > 0 => CoastWhy(shape, tr, [j \in DOMAIN a |-> Exact(a)[(j % Len(a)) + 1]], Exact(b)) # "" \/ \A i, j \in DOMAIN a : a[i] = a[j]
  /\ Total(a) > 0 => CoastWhy(shape, tr, [j \in DOMAIN a |-> 0], Exact(b)) # ""
\* lines of longitude through a track point are crossed as often as any other
LonTrack == <<p0, <<4, p0[2] + 1>>, <<8, 4>>, <<3, 3>>>>
NetEast == \A lon \in {3, 4, 5} :
  LET e == Total(Bands(<<LonTrack>>, lon, <<-20, 20>>, TRUE))  w == Total(Bands(<<LonTrack>>, lon, <<-20, 20>>, FALSE)) IN
  e - w = (IF East(LonTrack[4], lon) THEN 1 ELSE 0) - (IF East(LonTrack[1], lon) THEN 1 ELSE 0)
=============================================================================
