----------------------------- MODULE Sampling ------------------------------
(* Drawing values from tabulated distributions.  The weights of a table are   *)
(* whole numbers; a uniform number is a fraction q/cfg.den.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES cfg     \* den, w (columns of weights: w[i][j]), xs, ys
vars == <<cfg>>
InitWith(c) == cfg = c

RECURSIVE Sum(_, _)
Sum(w, n) == IF n = 0 THEN 0 ELSE Sum(w, n - 1) + w[n]
Total(w) == Sum(w, Len(w))
\* first position at which the cumulative weight reaches the fraction q/den of the total
RECURSIVE FirstFrom(_, _, _, _)
FirstFrom(w, q, i, acc) == IF (acc + w[i]) * cfg.den >= q * Total(w) \/ i = Len(w) THEN i ELSE FirstFrom(w, q, i + 1, acc + w[i])
Draw(w, q) == FirstFrom(w, q, 1, 0)
Columns == [i \in DOMAIN cfg.w |-> Total(cfg.w[i])]
Origin(q, r) == LET i == Draw(Columns, q) IN <<i, Draw(cfg.w[i], r)>>

Abs(x) == IF x < 0 THEN -x ELSE x
Scale == 1000000
\* a cumulative distribution c (in millionths) for the densities p (in millionths of their sum)
CdfWhy(p, c) ==
  IF Len(p) # Len(c) \/ Len(c) = 0 THEN "a cumulative distribution has another length than its density"
  ELSE IF c[1] < 0 THEN "a cumulative distribution starts below zero"
  ELSE IF \E i \in 2..Len(c) : c[i] < c[i - 1] THEN "a cumulative distribution decreases"
  ELSE IF c[Len(c)] # Scale THEN "a cumulative distribution does not end at one"
  ELSE IF \E i \in DOMAIN c : Abs(c[i] - (IF i = 1 THEN 0 ELSE c[i - 1]) - p[i]) > 2
       THEN "a cumulative distribution does not grow by its density"
  ELSE ""
\* cumulative distribution c[i][j] over two dimensions
Cdf2Why(p, c) ==
  IF Len(p) # Len(c) THEN "a cumulative distribution has another length than its density"
  ELSE IF c[Len(c)][Len(c[1])] # Scale THEN "a cumulative distribution does not end at one"
  ELSE IF \E i \in DOMAIN c : \E j \in DOMAIN c[i] :
            LET g == [k \in 1..i |-> Sum(p[k], j)] IN Abs(c[i][j] - Total(g)) > 2 * i * j + 2
       THEN "a cumulative distribution does not grow by its density" ELSE ""

Why(e) ==
  CASE e.t = "draw" -> \* one value of a table
         IF e.i = Draw(cfg.w[1], e.q) THEN "" ELSE "a value is drawn that the distribution does not assign to the number"
    [] e.t = "origin" ->
         IF <<e.i, e.j>> = Origin(e.q, e.r) THEN "" ELSE "an origin is drawn that the distribution does not assign to the numbers"
    [] e.t = "support" -> \* numbers not known
         IF e.i \in DOMAIN cfg.w /\ e.j \in DOMAIN cfg.w[e.i] /\ cfg.w[e.i][e.j] > 0 THEN "" ELSE "a value of zero probability is drawn"
    [] e.t = "cdf" -> CdfWhy(e.p, e.c)
    [] e.t = "cdf2" -> Cdf2Why(e.p, e.c)
    [] e.t = "grid" -> \* tabulated values, in thousandths: first, last and how many, step
         IF e.n < 2 THEN "a distribution has no range"
         ELSE IF Abs(e.lo - e.wlo) > 1 \/ e.hi > e.whi + 1 \/ e.hi < e.whi - e.step - 1 \/ Abs(e.hi - e.lo - (e.n - 1) * e.step) > e.n
         THEN "a distribution is not tabulated over the range of its data" ELSE ""
    [] e.t = "mode" -> \* data gathered closely around one value
         IF e.dist <= e.tol THEN "" ELSE "the density is not highest at its data"
    [] e.t = "centre" -> \* distance of the centre of the density from the centre of its data
         IF e.dist <= e.tol THEN "" ELSE "the density is not centred at its data"
    [] e.t = "within" -> \* the density with and without observations beyond the domain
         IF e.a = e.b THEN "" ELSE "observations beyond the domain change the density"
    [] e.t = "reject" -> IF e.raised THEN "" ELSE "an impossible request is answered"
    [] e.t = "same" -> IF e.a = e.b THEN "" ELSE "a saved distribution differs from the one returned"
    [] OTHER -> "unknown event"
Apply(e) == UNCHANGED vars
WhyEnd == ""
=============================================================================
