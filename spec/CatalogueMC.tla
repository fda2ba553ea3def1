---------------------------- MODULE CatalogueMC ----------------------------
EXTENDS Catalogue

(* ---- exhaustive: any processes, any order, any history of runs ---- *)
F(s, i) == 10 * s + i           \* the content a simulation must have
Empty(s, i) == (s + i) % 3 = 0  \* simulations without storms leave no file
CONSTANT MaxRuns
VARIABLE left
mvars == <<vars, left>>
MInit == InitWith([nsim |-> <<2, 3, 2>>, all |-> <<FALSE, FALSE, TRUE>>]) /\ left = MaxRuns
MNext ==
  \/ /\ left > 0 /\ run.n = 0
     /\ \E s \in Scenarios, n \in 1..3 : LET e == [t |-> "run", s |-> s, n |-> n] IN
           Why(e) = "" /\ Apply(e)
     /\ left' = left - 1
  \/ /\ run.n # 0
     /\ \E i \in DOMAIN cur :
          /\ ~Empty(run.sc, i)
          /\ LET e == [t |-> "file", i |-> i, v |-> F(run.sc, i), f |-> F(run.sc, i), names |-> TRUE] IN
             Why(e) = "" /\ Apply(e)
     /\ UNCHANGED left
  \/ /\ run.n # 0
     /\ \A i \in DOMAIN cur : cur[i] # NONE \/ Empty(run.sc, i)
     /\ LET e == [t |-> "end"] IN Why(e) = "" /\ Apply(e)
     /\ UNCHANGED left
MSpec == MInit /\ [][MNext]_mvars
\* a run that follows the rules is never rejected half way
CanFinish == (run.n # 0 /\ \A i \in DOMAIN cur : cur[i] # NONE \/ Empty(run.sc, i))
                => Why([t |-> "end"]) = ""
Functional == \A s \in Scenarios : ref[s] # <<>> =>
                 \A i \in 1..cfg.nsim[s] : ref[s][i] \in {NONE, F(s, i)}
=============================================================================
