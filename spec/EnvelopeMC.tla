----------------------------- MODULE EnvelopeMC -----------------------------
(* All orders of all steps of two storms give the same envelope.             *)
EXTENDS Envelope

VARIABLE todo, all
mvars == <<vars, todo, all>>
C == [x0 |-> 0, x1 |-> 2, y0 |-> 0, y1 |-> 0, n |-> 2, calm |-> 0, still |-> 0, top |-> 9,
      env |-> <<8, 7>>, tol |-> 0]
Steps == {[t |-> "step", s |-> s, x |-> x, y |-> 0, fail |-> FALSE, off |-> 0, dev |-> 0, c |-> <<1, 2>>,
           g |-> gg, w |-> <<10 * s + x, 20 * s + x>>, p |-> pp] :
             s \in 1..2, x \in {1, 3}, gg \in {<<1, 2>>, <<2, 2>>}, pp \in {<<5, 3>>}}
Storms == {[t |-> "storm", s |-> 1], [t |-> "storm", s |-> 2]}
MInit == \E S \in SUBSET Steps : Cardinality(S) <= 4 /\ InitWith(C) /\ todo = S \cup Storms /\ all = S
MNext == \E e \in todo : Why(e) = "" /\ Apply(e) /\ todo' = todo \ {e} /\ UNCHANGED all
MSpec == MInit /\ [][MNext]_mvars
In2(S) == {e \in S : Inside(e)}
MaxG(i) == LET V == {0} \cup {e.g[i] : e \in In2(all)} IN CHOOSE v \in V : \A u \in V : u <= v
MinP(i) == LET V == {7, 8} \cup {e.p[i] : e \in In2(all)} IN CHOOSE v \in V : \A u \in V : u >= v
Final == todo = {} => \A i \in 1..2 :
   /\ g[i] = MaxG(i)
   /\ p[i] = MinP(i)
   /\ w[i] = (IF In2(all) = {} \/ MaxG(i) = 0 THEN {0} ELSE {})
             \cup {e.w[i] : e \in {f \in In2(all) : f.g[i] = MaxG(i)}}
   /\ ins[1] + ins[2] = Cardinality(In2(all))
=============================================================================
