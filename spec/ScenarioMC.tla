----------------------------- MODULE ScenarioMC -----------------------------
(* The stages of a single-event run for all small storms, regions and         *)
(* failures.  The domain of a storm without region is the extent of its       *)
(* interpolated track in whole degrees; everything done by the stages in this *)
(* order is accepted, and at the end every step of a storm without region is  *)
(* at least the margin inside its domain.                                     *)
EXTENDS Scenario
CONSTANTS Spots, Margins, Rounding
VARIABLES pc, n
Down(v) == CASE Rounding = "outwards" -> (v \div 100) * 100
             [] OTHER -> ((v + 50) \div 100) * 100
Up(v) == CASE Rounding = "outwards" -> ((v + 99) \div 100) * 100
           [] OTHER -> ((v + 50) \div 100) * 100
None == [given |-> FALSE, x0 |-> 0, x1 |-> 0, y0 |-> 0, y1 |-> 0]
Lim(g) == [given |-> TRUE, x0 |-> g, x1 |-> g + 300, y0 |-> -300, y1 |-> 300]
Boxes == {[x0 |-> a - 101, x1 |-> b - 101, y0 |-> 10, y1 |-> c] : a \in Spots, b \in Spots, c \in {20, 101}}
Good(b) == b.x0 <= b.x1
St(k, m) == [t0 |-> 100, t1 |-> 100 + 3 * m, single |-> m = 0, id |-> <<k, 2>>]
VARIABLE boxes
allvars == <<cfg, tracks, gusts, done, pc, n, boxes>>
MInit == \E r \in {None} \cup {Lim(g) : g \in {-200, 400}}, m \in Margins, len \in {0, 1, 5},
            im \in {"no", "yes", "fails"}, pl \in BOOLEAN, ss \in 1..2 :
  /\ ~(r.given = FALSE /\ ss = 2)          \* without region: a single event
  /\ \E b1 \in {b \in Boxes : Good(b)}, b2 \in {b \in Boxes : Good(b) /\ (ss = 2 \/ b = CHOOSE z \in Boxes : Good(z))} :
       /\ boxes = <<b1, b2>>
       /\ InitWith([storms |-> [k \in 1..ss |-> St(k, len)], region |-> r, margin |-> m, step |-> 50,
                    stations |-> <<[x |-> 0, y |-> 0]>>, impact |-> im, plot |-> pl, series |-> TRUE, good |-> TRUE])
  /\ pc = "tracks" /\ n = 1
Ev == CASE pc = "tracks" -> LET s == cfg.storms[n] IN
             [t |-> "track", k |-> n, id |-> s.id, first |-> s.t0, last |-> s.t1, n |-> Steps(s), box |-> boxes[n]]
        [] pc = "winds" -> LET b == IF Region.given THEN Region ELSE [x0 |-> Down(boxes[n].x0), x1 |-> Up(boxes[n].x1), y0 |-> Down(boxes[n].y0), y1 |-> Up(boxes[n].y1)] IN
             [t |-> "gust", k |-> n, x0 |-> b.x0 - cfg.margin, x1 |-> b.x1 + cfg.margin, y0 |-> b.y0 - cfg.margin,
              y1 |-> b.y1 + cfg.margin, step |-> 50, blows |-> TRUE, other |-> 0, alone |-> 0]
        [] pc = "impact" -> [t |-> "impact", k |-> n, same |-> TRUE]
        [] pc = "series" -> [t |-> "series", st |-> 1, has |-> TRUE, top |-> 30, cell |-> 30, calm |-> FALSE, drawn |-> TRUE]
        [] pc = "map" -> [t |-> "map", match |-> TRUE, whole |-> TRUE]
        [] OTHER -> [t |-> "end", ok |-> cfg.impact # "fails" \/ Files = 0]
Fails == pc = "impact" /\ cfg.impact = "fails" /\ Has(n)
Skip == \/ pc = "winds" /\ ~Near(n)
        \/ pc = "impact" /\ (cfg.impact = "no" \/ ~Has(n))
        \/ pc = "map" /\ ~cfg.plot
After == CASE pc = "tracks" -> "winds" [] pc = "winds" -> "impact" [] pc = "impact" -> "map" [] pc = "map" -> "series" [] pc = "series" -> "end" [] OTHER -> "over"
Loops == pc \in {"tracks", "winds", "impact"}
MNext == /\ pc # "over"
         /\ IF Skip THEN UNCHANGED vars ELSE Apply(Ev)
         /\ IF Fails THEN pc' = "end" /\ n' = 1
            ELSE IF Loops /\ n < Len(cfg.storms) THEN n' = n + 1 /\ UNCHANGED pc
            ELSE pc' = After /\ n' = 1
         /\ UNCHANGED boxes
MSpec == MInit /\ [][MNext]_allvars
Accepted == (pc # "over" /\ ~Skip /\ ~Fails /\ ~(pc = "end" /\ cfg.impact = "fails")) => Why(Ev) = ""
\* one wind field for each storm near the region, none for others
Complete == pc \in {"impact", "map", "series", "end", "over"} => \A k \in Storms : Has(k) = Near(k)
\* without region every position is the margin inside
Inside == (pc = "over" /\ ~Region.given) =>
  \A i \in DOMAIN gusts : LET g == gusts[i]  b == tracks[g.k].box IN
     g.x0 <= b.x0 - cfg.margin /\ b.x1 + cfg.margin <= g.x1 /\ g.y0 <= b.y0 - cfg.margin /\ b.y1 + cfg.margin <= g.y1
\* the impact is calculated of everything or the failure is seen
Reported == (pc = "over" /\ cfg.impact = "fails" /\ Files > 0) => <<"impact", 1>> \in done \/ <<"impact", 2>> \in done
NoMapAfterFailure == (pc = "over" /\ cfg.impact = "fails" /\ Files > 0) => <<"map", 1>> \notin done
=============================================================================
