------------------------------ MODULE ConfigMC ------------------------------
EXTENDS Config
VARIABLES steps, before    \* before: what a process saw when it last wrote file w
mvars == <<vars, steps, before>>
K == {"a", "b", "c"}
C == [defaults |-> ("a" :> "d"), parse |-> <<>>,
      files |-> ("u" :> (("a" :> "u") @@ ("b" :> "u")) @@ "v" :> ("c" :> "v"))]
MInit == InitWith(C) /\ steps = 0 /\ before = <<>>
Ops == {[t |-> "read", f |-> f, ok |-> TRUE] : f \in DOMAIN cfg.files}
       \cup {[t |-> "set", k |-> k, text |-> x] : k \in K, x \in {"1", "2"}}
       \cup {[t |-> "new"], [t |-> "write", f |-> "w"]}
MNext == /\ steps < 6 /\ steps' = steps + 1
         /\ \E e \in Ops : Apply(e) /\ before' = IF e.t = "write" THEN View ELSE before
MSpec == MInit /\ [][MNext]_mvars
\* precedence, and a written configuration read by a new process is the same one
Precedence == \A k \in DOMAIN View :
   View[k] = IF k \in DOMAIN set THEN set[k] ELSE IF k \in DOMAIN User THEN User[k] ELSE C.defaults[k]
RoundTrip == file = "w" /\ set = <<>> /\ "w" \in DOMAIN cfg.files => View = cfg.files["w"]
SetSurvives == [][\A k \in DOMAIN set : (k \in DOMAIN set') \/ set' = <<>>]_mvars
=============================================================================
