----------------------------- MODULE EvolutionMC -----------------------------
(* All windows of one or two cells width and height at all places of a small  *)
(* domain in two or three steps: the record written layer by layer and the    *)
(* envelope are accepted.  Recorders with a slip are refuted: the window one  *)
(* cell off ("shifted"), values of the step before kept ("kept"), the layer   *)
(* of a step left out ("skips"), the envelope of the last layer ("last").     *)
EXTENDS Evolution
CONSTANTS Steps, Slip
VARIABLES pc
mvars == <<cfg, steps, k, top, low, pc>>
MInit == InitWith([gx |-> 100, gy |-> -50, nx |-> 3, ny |-> 2, res |-> 50, env |-> 900, times |-> [n \in 1..Steps |-> 60 * n]]) /\ pc = "steps"
Window(n, i, j, w, h) ==
  LET f == [q \in 1..w * h |-> 10 * ((n * 7) % 5) + q + 3] IN
  [t |-> "step", time |-> 60 * n, x |-> 100 + 50 * i, y |-> -50 + 50 * j, w |-> w, h |-> h, g |-> f, u |-> f, v |-> [q \in 1..w * h |-> 0],
   p |-> [q \in 1..w * h |-> 900 - 10 * n - q]]
Hand == /\ pc = "steps" /\ Len(steps) < Steps
        /\ \E i \in 0..2, j \in 0..1, w \in 1..2, h \in 1..2 :
             /\ i + w <= 3 /\ j + h <= 2
             /\ LET e == Window(Len(steps) + 1, i, j, w, h) IN
                pc' = (IF Why(e) = "" THEN "steps" ELSE "refused") /\ Apply(e)
Fill(s, f, none, before) ==
  [n \in Cells |-> LET m == IF Slip = "shifted" /\ s.x < 200 THEN [s EXCEPT !.x = s.x + 50, !.w = IF s.x + 50 * s.w >= 250 THEN 1 ELSE s.w] ELSE s IN
                   IF In(m, n) THEN (IF m.w = s.w THEN At(m, f, n) ELSE f[1])
                   ELSE IF Slip = "kept" /\ before # <<>> THEN before[n] ELSE none]
Layer == LET s == steps[k + 1] IN
         [t |-> "layer", time |-> s.time, g |-> Fill(s, s.g, 0, IF k > 0 THEN top ELSE <<>>), u |-> Fill(s, s.u, 0, <<>>),
          v |-> Fill(s, s.v, 0, <<>>), p |-> Fill(s, s.p, -1, <<>>)]
Write == /\ pc = "steps" /\ Len(steps) = Steps /\ k < Steps /\ ~(Slip = "skips" /\ k = Steps - 1)
         /\ pc' = IF Why(Layer) = "" THEN "steps" ELSE "refused"
         /\ Apply(Layer)
Envelope == [t |-> "field",
             g |-> IF Slip = "last" THEN [n \in Cells |-> IF In(steps[Steps], n) THEN At(steps[Steps], steps[Steps].g, n) ELSE 0] ELSE top, p |-> low]
Finish == /\ pc = "steps" /\ Len(steps) = Steps /\ (k = Steps \/ (Slip = "skips" /\ k = Steps - 1))
          /\ pc' = IF Why(Envelope) = "" THEN "done" ELSE "refused"
          /\ UNCHANGED vars
MNext == Hand \/ Write \/ Finish
MSpec == MInit /\ [][MNext]_mvars
Accepted == pc # "refused"
\* no cell has wind in the envelope that no step had
Bounded == pc = "done" => \A n \in Cells : top[n] > 0 => \E q \in DOMAIN steps : In(steps[q], n)
=============================================================================
