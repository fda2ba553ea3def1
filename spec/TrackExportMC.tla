---------------------------- MODULE TrackExportMC ----------------------------
(* Every set of short storms around Greenwich, exported feature by feature,   *)
(* is accepted.  Exporters with a slip are refuted: the position before a     *)
(* crossing left out ("drops"), only crossings to the east recognised         *)
(* ("east only"), only one of several crossings ("one cut"), storms of one    *)
(* record left out ("no single").                                             *)
EXTENDS TrackExport
CONSTANTS Longest, Slip
VARIABLES pc
mvars == <<cfg, i, j, pc>>
Lons == {2000000, 181000000, 359000000}
Rec(x, k) == [x |-> x, y |-> 1000000 * k, p |-> 1000000 - 20000 * k,
              a |-> <<0, 7, 2000, 1, 2, 3, 0, 100 * k, x \div 10000, 100 * k, 5, 6, 1000, 30 + k, 9, 1>>]
Storms == UNION {[1..n -> Lons] : n \in 1..Longest}
Storm(q) == [k \in DOMAIN q |-> Rec(q[k], k)]
MInit == \E form \in {"point", "line", "whole"}, model \in BOOLEAN, q \in Storms, z \in {<<2000000>>, <<359000000, 2000000>>} :
           InitWith([form |-> form, model |-> model, slack |-> [k \in 1..17 |-> 0], storms |-> <<Storm(q), Storm(z)>>]) /\ pc = "run"
Crosses(a, b) == IF Slip = "east only" THEN b[1] - a[1] < -180000000 ELSE Leap(a, b)
\* the positions from k on, cut at crossings
RECURSIVE Parts(_, _, _, _)
Parts(s, k, cur, cuts) ==
  IF k > Len(s) THEN <<cur>>
  ELSE IF cur # <<>> /\ Crosses(Pos(s[k - 1]), Pos(s[k])) /\ ~(Slip = "one cut" /\ cuts > 0)
       THEN <<IF Slip = "drops" THEN SubSeq(cur, 1, Len(cur) - 1) ELSE cur>> \o Parts(s, k + 1, <<Pos(s[k])>>, cuts + 1)
       ELSE Parts(s, k + 1, Append(cur, Pos(s[k])), cuts)
Make == LET s == cfg.storms[i] IN LET r == s[j] IN
  CASE cfg.form = "point" -> [t |-> "feature", parts |-> <<<<Pos(r)>>>>, v |-> Values(r)]
    [] cfg.form = "line"  ->
         [t |-> "feature", v |-> Values(r),
          parts |-> IF j = Len(s) \/ Crosses(Pos(r), Pos(s[j + 1])) THEN <<<<Pos(r), Pos(r)>>>> ELSE <<<<Pos(r), Pos(s[j + 1])>>>>]
    [] OTHER -> [t |-> "feature", parts |-> Parts(s, 1, <<>>, 0), v |-> Summary(s)]
Step == /\ pc = "run" /\ i <= Len(cfg.storms)
        /\ pc' = IF Why(Make) = "" THEN "run" ELSE "refused"
        /\ Apply(Make)
Done == /\ pc = "run"
        /\ i > Len(cfg.storms) \/ (Slip = "no single" /\ i = 2 /\ Len(cfg.storms[2]) = 1)
        /\ pc' = IF Why([t |-> "end", kept |-> TRUE]) = "" THEN "done" ELSE "refused"
        /\ UNCHANGED <<cfg, i, j>>
MNext == Step \/ Done
MSpec == MInit /\ [][MNext]_mvars
Accepted == pc # "refused"
=============================================================================
