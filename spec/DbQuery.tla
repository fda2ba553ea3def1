------------------------------- MODULE DbQuery -------------------------------
(* The event database as relations, and the questions users ask of it.  A     *)
(* history is any interleaving of inserted rows and queries; every answer is   *)
(* exactly the set of matching rows at that moment, each once, in the stated   *)
(* order.  Rows are records of integers (wind speeds and distances scaled).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES cfg, L, W, E, T, H   \* locations, wind speeds, events, passages, hazard levels
vars == <<cfg, L, W, E, T, H>>
Rng(s) == {s[i] : i \in 1..Len(s)}

InitWith(c) == cfg = c /\ L = {} /\ W = {} /\ E = {} /\ T = {} /\ H = {}

\* ---- the questions
Exceeding(loc, v) == {<<l.id, l.name, w.w, w.ev>> : <<l, w>> \in
    {<<a, b>> \in L \X W : a.id = loc /\ b.loc = loc /\ b.w > v}}
Records(loc) == {<<l.id, l.name, w.w, w.u, w.v, w.ev>> : <<l, w>> \in
    {<<a, b>> \in L \X W : a.id = loc /\ b.loc = loc}}
Passage(loc, d) == {<<l.id, l.name, t.ev, t.d, w.w, e.file>> : <<l, t, w, e>> \in
    {<<a, b, x, y>> \in L \X T \X W \X E :
        a.id = loc /\ b.loc = loc /\ x.loc = loc /\ x.ev = b.ev /\ y.ev = b.ev /\ b.d < d}}
PassageWind(loc, v, d) == {<<l.name, w.w, w.u, w.v, w.ev, t.d, e.mw, e.mp>> : <<l, t, w, e>> \in
    {<<a, b, x, y>> \in L \X T \X W \X E :
        a.id = loc /\ b.loc = loc /\ x.loc = loc /\ x.ev = b.ev /\ y.ev = b.ev
        /\ b.d <= d /\ x.w > v}}
Level(loc, rp) == {h.w : h \in {x \in H : x.loc = loc /\ x.rp = rp}}
ReturnEvents(loc, rp) == UNION {Exceeding(loc, v) : v \in Level(loc, rp)}
Levels(loc) == {<<l.id, l.name, h.rp, h.w, h.lo, h.up>> : <<l, h>> \in
    {<<a, b>> \in L \X H : a.id = loc /\ b.loc = loc}}
AllEvents == {<<e.num, e.ev, e.file, e.mw, e.mp>> : e \in E}

Answer(e) ==
  CASE e.q = "exceeding" -> Exceeding(e.loc, e.v)
    [] e.q = "records" -> Records(e.loc)
    [] e.q = "passage" -> Passage(e.loc, e.d)
    [] e.q = "passagewind" -> PassageWind(e.loc, e.v, e.d)
    [] e.q = "returnevents" -> ReturnEvents(e.loc, e.rp)
    [] e.q = "levels" -> Levels(e.loc)
    [] e.q = "events" -> AllEvents
\* the column the answer is ordered by (0: none)
OrderBy(q) == CASE q = "exceeding" -> 3 [] q = "records" -> 3 [] q = "passage" -> 0
                [] q = "passagewind" -> 2 [] q = "returnevents" -> 3
                [] q = "levels" -> 3 [] q = "events" -> 4
Sorted(rows, k) == k = 0 \/ \A i \in 1..(Len(rows) - 1) : rows[i][k] <= rows[i + 1][k]

Why(e) ==
  IF e.t = "query"
  THEN IF ~e.ok THEN "the query fails"
       ELSE IF ~(Rng(e.rows) \subseteq Answer(e))
       THEN "query " \o e.q \o " returns a record that does not satisfy it"
       ELSE IF Answer(e) # Rng(e.rows) THEN "query " \o e.q \o " misses a record"
       ELSE IF Cardinality(Rng(e.rows)) # Len(e.rows)
       THEN "query " \o e.q \o " returns a record twice"
       ELSE IF ~Sorted(e.rows, OrderBy(e.q)) THEN "query " \o e.q \o " is not in order"
       ELSE ""
  ELSE IF e.t \in {"loc", "wind", "event", "track", "hazard"} THEN "" ELSE "unknown event"

Apply(e) ==
  CASE e.t = "loc" -> L' = L \cup {e.row} /\ UNCHANGED <<cfg, W, E, T, H>>
    [] e.t = "wind" -> W' = W \cup {e.row} /\ UNCHANGED <<cfg, L, E, T, H>>
    [] e.t = "event" -> E' = E \cup {e.row} /\ UNCHANGED <<cfg, L, W, T, H>>
    [] e.t = "track" -> T' = T \cup {e.row} /\ UNCHANGED <<cfg, L, W, E, H>>
    [] e.t = "hazard" -> H' = H \cup {e.row} /\ UNCHANGED <<cfg, L, W, E, T>>
    [] OTHER -> UNCHANGED vars
WhyEnd == ""

\* ---- exhaustive: all small databases
Init == InitWith([x |-> 0])
Next == \/ \E i \in 1..2 : (\A l \in L : l.id # i) /\ Apply([t |-> "loc", row |-> [id |-> i, name |-> 50 + i]])
        \/ \E i \in 1..2, ev \in 1..2, w \in 1..2 :
             (\A x \in W : <<x.loc, x.ev>> # <<i, ev>>) /\
             Apply([t |-> "wind", row |-> [loc |-> i, ev |-> ev, w |-> w, u |-> 3 * i + ev, v |-> i]])
        \/ \E ev \in 1..2 : (\A x \in E : x.ev # ev) /\
             Apply([t |-> "event", row |-> [num |-> ev, ev |-> ev, file |-> 70 + ev, mw |-> 3 - ev, mp |-> 9]])
        \/ \E i \in 1..2, ev \in 1..2, d \in 1..2 :
             (\A x \in T : <<x.loc, x.ev>> # <<i, ev>>) /\
             Apply([t |-> "track", row |-> [loc |-> i, ev |-> ev, d |-> d]])
        \/ \E i \in 1..2 : (\A x \in H : x.loc # i) /\
             Apply([t |-> "hazard", row |-> [loc |-> i, rp |-> 5, w |-> 1, lo |-> 0, up |-> 2]])
Small == Cardinality(L) + Cardinality(W) + Cardinality(E) + Cardinality(T) + Cardinality(H) <= 6
Spec == Init /\ [][Next]_vars
\* the answers relate to each other the way a user expects
Monotone == \A i \in 1..2 : /\ Exceeding(i, 2) \subseteq Exceeding(i, 1)
                            /\ Exceeding(i, 0) = {<<r[1], r[2], r[3], r[6]>> : r \in Records(i)}
                            /\ Passage(i, 1) \subseteq Passage(i, 2)
                            /\ \A r \in PassageWind(i, 0, 2) : \E p \in Passage(i, 3) : p[3] = r[5] /\ p[5] = r[2]
OwnLocation == \A i \in 1..2 : \A r \in Passage(i, 9) :
                 \E w \in W : w.loc = i /\ w.ev = r[3] /\ w.w = r[5]
OnePerEvent == \A i \in 1..2 : \A r, s \in Passage(i, 9) : r[3] = s[3] => r = s
ReturnSane == \A i \in 1..2 : \A r \in ReturnEvents(i, 5) : r[3] > 1
=============================================================================
