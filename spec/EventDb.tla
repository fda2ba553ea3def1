------------------------------- MODULE EventDb -------------------------------
(* The event database as a function of its sources: the locations, the wind   *)
(* field files, the hazard file and the track files.  A build is carried out   *)
(* by cfg.n processes; whatever they do, the tables at the end hold one row    *)
(* per (location, event), (location, return period), (location, track) and     *)
(* event, with the values of the nearest grid point.                           *)
(* All numbers are integers: coordinates in tenths of a degree, field values   *)
(* as codes, distances as squares of tenths of a degree.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES cfg,     \* the sources (see Configs for the shape)
          tab,     \* table name -> sequence of rows
          ended,   \* processes that finished normally
          builds   \* completed builds
vars == <<cfg, tab, ended, builds>>

Names == {"locations", "events", "wind", "hazard", "passage"}
Range(s) == {s[i] : i \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x

\* ---- what the sources say
InDomain(l) == l.x >= cfg.dom[1] /\ l.x <= cfg.dom[2] /\ l.y >= cfg.dom[3] /\ l.y <= cfg.dom[4]
Locs == {l \in Range(cfg.locs) : InDomain(l)}
LocIds == {l.id : l \in Locs}
LocOf(id) == CHOOSE l \in Locs : l.id = id
Nearest(g, x) == {i \in 1..Len(g) : \A k \in 1..Len(g) : Abs(g[i] - x) <= Abs(g[k] - x)}
Points(l) == Nearest(cfg.glat, l.y) \X Nearest(cfg.glon, l.x)
Files == Range(cfg.files)
Tracks == {t \in Range(cfg.tracks) : Len(t.pts) > 0}

\* squared distance of a point to a path whose segments run east-west or north-south
Between(a, b, x) == LET lo == IF a < b THEN a ELSE b
                        hi == IF a < b THEN b ELSE a
                    IN IF x < lo THEN lo - x ELSE IF x > hi THEN x - hi ELSE 0
SegDist(p, q, x, y) == LET dx == Between(p[1], q[1], x)
                           dy == Between(p[2], q[2], y)
                       IN dx * dx + dy * dy
Segs(t) == IF Len(t.pts) = 1 THEN {<<t.pts[1], t.pts[1]>>}
           ELSE {<<t.pts[i], t.pts[i + 1]>> : i \in 1..(Len(t.pts) - 1)}
Dist(t, l) == LET D == {SegDist(s[1], s[2], l.x, l.y) : s \in Segs(t)}
              IN CHOOSE d \in D : \A z \in D : d <= z

\* ---- is a row right?
RowOk(name, r) ==
  CASE name = "locations" -> \E l \in Locs : r = <<l.id, l.x, l.y>>
    [] name = "events" -> \E f \in Files : r = <<f.id, f.file, f.track, f.maxwind, f.minpres>>
    [] name = "wind" ->
         /\ r[1] \in LocIds
         /\ \E f \in Files : /\ f.id = r[2]
                             /\ \E p \in Points(LocOf(r[1])) :
                                  r = <<r[1], f.id, f.v[p[1]][p[2]], f.ua[p[1]][p[2]],
                                        f.va[p[1]][p[2]], f.p[p[1]][p[2]]>>
    [] name = "hazard" ->
         /\ r[1] \in LocIds
         /\ \E k \in 1..Len(cfg.years) :
              /\ cfg.years[k] = r[2]
              /\ \E p \in Points(LocOf(r[1])) :
                   r = <<r[1], r[2], cfg.hw[k][p[1]][p[2]], cfg.hu[k][p[1]][p[2]],
                         cfg.hl[k][p[1]][p[2]], cfg.loc[p[1]][p[2]], cfg.scale[p[1]][p[2]],
                         cfg.shape[p[1]][p[2]]>>
    [] name = "passage" ->
         /\ r[1] \in LocIds
         /\ \E t \in Tracks : t.id = r[2] /\ r[3] = Dist(t, LocOf(r[1]))

Key(name, r) == IF name \in {"locations", "events"} THEN <<r[1]>> ELSE <<r[1], r[2]>>
Keys(name) ==
  CASE name = "locations" -> {<<i>> : i \in LocIds}
    [] name = "events" -> {<<f.id>> : f \in Files}
    [] name = "wind" -> {<<i, f.id>> : i \in LocIds, f \in Files}
    [] name = "hazard" -> {<<i, y>> : i \in LocIds, y \in Range(cfg.years)}
    [] name = "passage" -> {<<i, t.id>> : i \in LocIds, t \in Tracks}

WrongTable(name, rows) ==
  IF \E i \in 1..Len(rows) : Key(name, rows[i]) \notin Keys(name)
  THEN "a row of table " \o name \o " belongs to no source record"
  ELSE IF \E i, j \in 1..Len(rows) : i < j /\ Key(name, rows[i]) = Key(name, rows[j])
  THEN "a record appears twice in table " \o name
  ELSE IF {Key(name, rows[i]) : i \in 1..Len(rows)} # Keys(name)
  THEN "a record is missing from table " \o name
  ELSE IF \E i \in 1..Len(rows) : ~RowOk(name, rows[i])
  THEN "a row of table " \o name \o " has the wrong values"
  ELSE ""

InitWith(c) == /\ cfg = c
               /\ tab = [x \in Names |-> <<>>]
               /\ ended = {}
               /\ builds = 0

Why(e) ==
  CASE e.t = "end" -> IF e.r \in ended THEN "ends twice"
                      ELSE IF ~e.ok THEN "a process fails" ELSE ""
    [] e.t = "stuck" -> "processes wait for each other forever"
    [] e.t = "lost" -> "a message is never received"
    [] e.t = "table" -> WrongTable(e.name, e.rows)
    [] e.t = "built" -> IF ended # 0..(cfg.n - 1) THEN "some process never ends"
                        ELSE IF \E x \in Names : WrongTable(x, tab[x]) # ""
                        THEN "the tables are incomplete" ELSE ""
    [] OTHER -> "unknown event"
Apply(e) ==
  CASE e.t = "end" -> ended' = ended \cup {e.r} /\ UNCHANGED <<cfg, tab, builds>>
    [] e.t = "table" -> tab' = [tab EXCEPT ![e.name] = e.rows] /\ UNCHANGED <<cfg, ended, builds>>
    [] e.t = "built" -> /\ builds' = builds + 1 /\ ended' = {}
                        /\ tab' = [x \in Names |-> <<>>] /\ UNCHANGED cfg
    [] OTHER -> UNCHANGED vars
WhyEnd == IF builds # cfg.builds THEN "the build did not complete" ELSE ""

(* ---- exhaustive: the tables filled source record by source record in any   *)
(* order by any number of builders always come out right                      *)
Configs ==
  {[n |-> 2, builds |-> 1, dom |-> <<0, 20, 0, 20>>,
    locs |-> <<[id |-> 1, x |-> 0, y |-> 20], [id |-> 2, x |-> 14, y |-> 15],
               [id |-> 3, x |-> 21, y |-> 10]>>,
    glon |-> <<0, 10, 20>>, glat |-> <<0, 10, 20>>,
    files |-> [k \in 1..F |-> [id |-> 100 + k, file |-> k, track |-> 10 + k, maxwind |-> 50 + k,
                minpres |-> 900 + k,
                v |-> [j \in 1..3 |-> [i \in 1..3 |-> 1000 * k + 10 * j + i]],
                ua |-> [j \in 1..3 |-> [i \in 1..3 |-> 2000 * k + 10 * j + i]],
                va |-> [j \in 1..3 |-> [i \in 1..3 |-> 3000 * k + 10 * j + i]],
                p |-> [j \in 1..3 |-> [i \in 1..3 |-> 4000 * k + 10 * j + i]]]],
    years |-> <<5, 10>>,
    hw |-> [k \in 1..2 |-> [j \in 1..3 |-> [i \in 1..3 |-> 100 * k + 10 * j + i]]],
    hu |-> [k \in 1..2 |-> [j \in 1..3 |-> [i \in 1..3 |-> 200 * k + 10 * j + i]]],
    hl |-> [k \in 1..2 |-> [j \in 1..3 |-> [i \in 1..3 |-> 300 * k + 10 * j + i]]],
    loc |-> [j \in 1..3 |-> [i \in 1..3 |-> 10 * j + i]],
    scale |-> [j \in 1..3 |-> [i \in 1..3 |-> 20 * j + i]],
    shape |-> [j \in 1..3 |-> [i \in 1..3 |-> 30 * j + i]],
    tracks |-> <<[id |-> 201, pts |-> <<<<0, 0>>, <<20, 0>>, <<20, 30>>>>], [id |-> 202, pts |-> <<>>],
                 [id |-> 203, pts |-> <<<<5, 5>>>>]>>] : F \in 0..2}
Init == \E c \in Configs : InitWith(c)

RowsFor(name, k) ==    \* the rows of one key
  CASE name = "locations" -> {<<l.id, l.x, l.y>> : l \in {x \in Locs : x.id = k[1]}}
    [] name = "events" -> {<<f.id, f.file, f.track, f.maxwind, f.minpres>> :
                              f \in {x \in Files : x.id = k[1]}}
    [] name = "wind" -> UNION {{<<k[1], f.id, f.v[p[1]][p[2]], f.ua[p[1]][p[2]],
                               f.va[p[1]][p[2]], f.p[p[1]][p[2]]>> : p \in Points(LocOf(k[1]))} :
                              f \in {x \in Files : x.id = k[2]}}
    [] name = "hazard" -> UNION {{<<k[1], k[2], cfg.hw[z][p[1]][p[2]], cfg.hu[z][p[1]][p[2]],
                         cfg.hl[z][p[1]][p[2]], cfg.loc[p[1]][p[2]], cfg.scale[p[1]][p[2]],
                         cfg.shape[p[1]][p[2]]>> : p \in Points(LocOf(k[1]))} :
                         z \in {y \in 1..Len(cfg.years) : cfg.years[y] = k[2]}}
    [] name = "passage" -> {<<k[1], t.id, Dist(t, LocOf(k[1]))>> : t \in {x \in Tracks : x.id = k[2]}}
Has(name, k) == \E i \in 1..Len(tab[name]) : Key(name, tab[name][i]) = k
Done(name) == \A k \in Keys(name) : Has(name, k)
AddKey(name, k) == \E r \in RowsFor(name, k) : tab' = [tab EXCEPT ![name] = Append(@, r)]
Smallest(S) == CHOOSE x \in S : \A y \in S : x[1] < y[1] \/ (x[1] = y[1] /\ x[Len(x)] <= y[Len(y)])
Missing(name) == {k \in Keys(name) : ~Has(name, k)}
\* the results of one task arrive together, the tasks in any order
Locate == AddKey("locations", Smallest(Missing("locations")))
Event == \E k \in Missing("events") :
           /\ \A i \in LocIds, f \in Files : Has("events", <<f.id>>) => Has("wind", <<i, f.id>>)
           /\ AddKey("events", k)
Wind == LET M == {k \in Missing("wind") : Has("events", <<k[2]>>)}
        IN M # {} /\ AddKey("wind", Smallest(M))
Hazard == AddKey("hazard", Smallest(Missing("hazard")))
Passage == \E t \in {x \in Tracks : \E k \in Missing("passage") : k[2] = x.id} :
             /\ \A u \in Tracks : (u # t /\ \E k \in Keys("passage") : k[2] = u.id /\ Has("passage", k))
                                   => \A k \in Keys("passage") : k[2] = u.id => Has("passage", k)
             /\ AddKey("passage", Smallest({k \in Missing("passage") : k[2] = t.id}))
Next == /\ builds = 0
        /\ \/ /\ UNCHANGED <<cfg, ended, builds>>
              /\ IF ~Done("locations") THEN Locate
                 ELSE IF ~Done("wind") \/ ~Done("events") THEN Event \/ Wind
                 ELSE IF ~Done("hazard") THEN Hazard
                 ELSE ~Done("passage") /\ Passage
           \/ \E r \in 0..(cfg.n - 1) :
                LET e == [t |-> "end", r |-> r, ok |-> TRUE] IN
                /\ \A x \in Names : Done(x)
                /\ Why(e) = "" /\ Apply(e)
           \/ LET e == [t |-> "built"] IN Why(e) = "" /\ Apply(e)
Spec == Init /\ [][Next]_vars
RightSoFar == \A x \in Names : \A i \in 1..Len(tab[x]) : RowOk(x, tab[x][i])
OnceSoFar == \A x \in Names : Cardinality({Key(x, tab[x][i]) : i \in 1..Len(tab[x])}) = Len(tab[x])
EndsRight == (\A x \in Names : Done(x)) => \A x \in Names : WrongTable(x, tab[x]) = ""
\* a location on the border of the domain belongs to it, one outside does not
Border == 1 \in LocIds /\ 3 \notin LocIds
\* the nearest point of location 2 is unambiguous in longitude, tied in latitude
TieSane == Cardinality(Points(LocOf(2))) = 2
\* distances come from the path, not from its vertices
PathDist == Dist(cfg.tracks[1], LocOf(2)) = 36
=============================================================================
