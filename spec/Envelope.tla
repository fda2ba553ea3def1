------------------------------ MODULE Envelope ------------------------------
(* The wind field of one or more storms as the envelope of its time steps.   *)
(* A step is the storm centre and, for the cells its local window covers, the *)
(* gust, the wind (both components, one code) and the pressure.  Gusts and    *)
(* pressures are order-preserving integer codes, winds are identity codes.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES cfg,    \* x0,x1,y0,y1 (micro-degrees), n cells, calm gust code, still wind code,
                  \* env: background pressure code of every storm
          g, w, p,  \* per cell: largest gust, winds seen with it, lowest pressure
          ins     \* number of steps inside per storm
vars == <<cfg, g, w, p, ins>>

Cells == 1..cfg.n
InitWith(c) == /\ cfg = c
               /\ g = [i \in 1..c.n |-> c.calm]
               /\ w = [i \in 1..c.n |-> {c.still}]
               /\ p = [i \in 1..c.n |-> c.top]
               /\ ins = [s \in 1..Len(c.env) |-> 0]

Inside(e) == e.x >= cfg.x0 /\ e.x <= cfg.x1 /\ e.y >= cfg.y0 /\ e.y <= cfg.y1
Low(a, b) == IF a < b THEN a ELSE b

FoldStep(e) ==
  LET K == DOMAIN e.c
      pos == [i \in Cells |-> LET S == {k \in K : e.c[k] = i} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE]
  IN /\ g' = [i \in Cells |-> IF pos[i] # 0 /\ e.g[pos[i]] > g[i] THEN e.g[pos[i]] ELSE g[i]]
     /\ w' = [i \in Cells |-> IF pos[i] = 0 THEN w[i]
                              ELSE IF e.g[pos[i]] > g[i] THEN {e.w[pos[i]]}
                              ELSE IF e.g[pos[i]] = g[i] THEN w[i] \cup {e.w[pos[i]]} ELSE w[i]]
     /\ p' = [i \in Cells |-> IF pos[i] # 0 THEN Low(p[i], e.p[pos[i]]) ELSE p[i]]

Why(e) ==
  CASE e.t = "step" -> IF ~Inside(e) THEN ""
                       ELSE IF e.fail THEN "the wind field of a time step fails"
                       ELSE IF e.off > cfg.tol THEN "the low is not at the storm centre"
                       ELSE IF e.dev > cfg.tol THEN "the wind of a time step is not the model's for that storm state"
                       ELSE IF \E k \in DOMAIN e.c : e.c[k] \notin Cells
                       THEN "a time step contributes outside the grid"
                       ELSE ""
    [] e.t = "storm" -> ""
    [] e.t = "calls" -> \* times handed to the per-step observer for storm s
         IF Len(e.at) # ins[e.s] THEN "a time step inside the domain is skipped or one outside is used"
         ELSE IF \E i, j \in DOMAIN e.at : i < j /\ e.at[i] >= e.at[j] THEN "time steps out of order"
         ELSE ""
    [] e.t = "axes" -> IF e.ok THEN "" ELSE "the grid does not cover the domain and its margin"
    [] e.t = "result" ->
         IF Len(e.g) # cfg.n THEN "wrong grid size"
         ELSE LET bad == {i \in Cells : e.g[i] # g[i]}
                  badw == {i \in Cells : e.w[i] \notin w[i]}
                  badp == {i \in Cells : e.p[i] # p[i]} IN
              IF bad # {} THEN "a stored gust is not the largest over the time steps"
              ELSE IF badw # {} THEN "stored wind components are not those of the largest gust"
              ELSE IF badp # {} THEN "a stored pressure is not the lowest over the time steps"
              ELSE IF e.turned # 0 THEN "a stored direction is not that of the stored wind"
              ELSE ""
    [] e.t = "fail" -> "the wind field calculation fails"
    [] OTHER -> "unknown event"

Apply(e) ==
  CASE e.t = "step" -> IF Inside(e)
                       THEN /\ FoldStep(e)
                            /\ ins' = [ins EXCEPT ![e.s] = @ + 1]
                            /\ UNCHANGED cfg
                       ELSE UNCHANGED vars
    [] e.t = "storm" -> /\ p' = [i \in Cells |-> Low(p[i], cfg.env[e.s])]
                        /\ UNCHANGED <<cfg, g, w, ins>>
    [] OTHER -> UNCHANGED vars
WhyEnd == ""
=============================================================================
