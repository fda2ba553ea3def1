---------------------------- MODULE TrackFileMC ----------------------------
EXTENDS TrackFile
VARIABLES steps, origin    \* origin[f]: the track set last saved to f, as made
mvars == <<vars, steps, origin>>
Rec(n, day, sec, p) == <<n, day, sec, 0, 10 * n, 0, 0, 0, p, 1010, 30>>
T1 == [id |-> <<1, 1>>, rec |-> <<Rec(1, 0, 0, 990), Rec(1, 0, 6, 980)>>]
T2 == [id |-> <<2, 1>>, rec |-> <<Rec(2, 5, 0, 1000)>>]
T0 == [id |-> <<3, 1>>, rec |-> <<>>]
TrackSets == {<<>>, <<T1>>, <<T1, T2>>, <<T2, T0, T1>>}
Lows(x) == [i \in DOMAIN x |-> IF x[i].rec = <<>> THEN -1 ELSE Low(x[i])]
MInit == InitWith([n |-> 2, m |-> 2]) /\ steps = 0 /\ origin = [f \in 1..2 |-> <<>>]
Ops == {[t |-> "make", s |-> s, tracks |-> x] : s \in 1..2, x \in TrackSets}
       \cup {[t |-> "save", s |-> s, f |-> f, ok |-> TRUE, after |-> mem[s]] : s \in 1..2, f \in 1..2}
       \cup {[t |-> "load", s |-> s, f |-> f, ok |-> TRUE, got |-> x, lows |-> Lows(x)] : s \in 1..2, f \in 1..2, x \in {NonEmpty(y) : y \in TrackSets}}
MNext == steps < 5 /\ steps' = steps + 1 /\ \E e \in Ops :
            /\ Why(e) = "" /\ Apply(e)
            /\ origin' = IF e.t = "save" THEN [origin EXCEPT ![e.f] = NonEmpty(mem[e.s])] ELSE origin
MSpec == MInit /\ [][MNext]_mvars
\* what is accepted as read is what was written last to that file, and only that
RoundTrip == \A f \in 1..2 : file[f] = origin[f]
OnlyMade == \A s \in 1..2 : mem[s] \in TrackSets \cup {NonEmpty(x) : x \in TrackSets}
\* every load is determined: exactly one outcome is accepted
Determined == \A f \in 1..2 : Cardinality({x \in {NonEmpty(y) : y \in TrackSets} :
                 Why([t |-> "load", s |-> 1, f |-> f, ok |-> TRUE, got |-> x, lows |-> Lows(x)]) = ""}) = 1
\* a track that states a pressure higher than its lowest is refused
Lowest == \A f \in 1..2 : file[f] # <<>> =>
  Why([t |-> "load", s |-> 1, f |-> f, ok |-> TRUE, got |-> file[f], lows |-> [i \in DOMAIN file[f] |-> file[f][i].rec[1][9] + 1]]) # ""
\* the two tracks start in different halves of the plane
Starts == Why([t |-> "where", tracks |-> <<T1, T2>>, box |-> <<0, 10, -5, 0>>, got |-> <<TRUE, FALSE>>]) = ""
=============================================================================
