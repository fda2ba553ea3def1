------------------------------ MODULE Pipeline ------------------------------
(* The stages of a model run.  A stage consists of steps; single stages run   *)
(* on one process, parallel stages on all.  A stage may only start once every  *)
(* enabled stage whose output it uses is complete on every process that runs   *)
(* it.  The second half models the actual control program (stages in a fixed   *)
(* sequence with barriers) and is checked to satisfy this contract.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Stages == {"download", "process", "stat", "tracks", "wind", "hazard",
           "plotdata", "database", "evaluate", "plothazard"}
Parallel == {"tracks", "wind", "hazard", "database", "evaluate"}
\* whose results a stage uses
Needs == [s \in Stages |->
   CASE s = "download" -> {}
     [] s = "process" -> {"download"}
     [] s = "stat" -> {"download", "process"}
     [] s = "tracks" -> {"download", "stat"}
     [] s = "wind" -> {"download", "tracks"}
     [] s = "hazard" -> {"wind"}
     [] s = "plotdata" -> {"process"}
     [] s = "database" -> {"tracks", "wind", "hazard"}
     [] s = "evaluate" -> {"process", "stat", "tracks"}
     [] s = "plothazard" -> {"hazard", "database"}]
Uses(s, t) ==   \* s uses, directly or not, what t produces
   LET RECURSIVE R(_)
       R(x) == Needs[x] \cup UNION {R(y) : y \in Needs[x]}
   IN t \in R(s)

VARIABLES cfg,     \* n, on: set of enabled stages (as a sequence), req: stage -> steps
          done,    \* stage -> process -> set of steps taken
          failed,  \* set of <<stage, process>> where a step failed
          told,    \* a failure was reported
          ended,
          mpc, mbar, hist   \* the control program (second half)
cvars == <<cfg, done, failed, told, ended>>
vars == <<cfg, done, failed, told, ended, mpc, mbar, hist>>

Rng(q) == {q[i] : i \in 1..Len(q)}
On == Rng(cfg.on)
Procs == 0..(cfg.n - 1)
Took(s) == {r \in Procs : done[s][r] # {}}
Complete(s) == IF s \in Parallel
               THEN \A r \in Procs : done[s][r] = Rng(cfg.req[s])
               ELSE \E r \in Procs : done[s][r] = Rng(cfg.req[s])
CInit(c) == /\ cfg = c
            /\ done = [s \in Stages |-> [r \in 0..(c.n - 1) |-> {}]]
            /\ failed = {} /\ told = FALSE /\ ended = {}
InitWith(c) == CInit(c) /\ mpc = <<>> /\ mbar = {} /\ hist = <<>>

WhyStep(e) ==
  IF e.s \notin On THEN "a stage runs that is not enabled"
  ELSE IF e.step \notin Rng(cfg.req[e.s]) THEN "unknown step"
  ELSE IF e.step \in done[e.s][e.r] THEN "a step runs twice"
  ELSE IF e.s \notin Parallel /\ Took(e.s) \ {e.r} # {} THEN "a single-process stage runs on several processes"
  ELSE IF ~e.dirs THEN "a stage runs before the output directories exist"
  ELSE IF ~e.conf THEN "a stage is not given the configuration file"
  ELSE IF \E t \in On : Uses(e.s, t) /\ ~Complete(t) THEN "a stage runs before a stage it depends on is complete"
  ELSE IF \E t \in failed : e.r = t[2] /\ ~(e.s = t[1] /\ e.s = "download") THEN "a process carries on after a failed stage"
  ELSE IF \E t \in failed : Uses(e.s, t[1]) THEN "a stage runs although a stage it depends on failed"
  ELSE ""

Why(e) ==
  CASE e.t = "step" -> WhyStep(e)
    [] e.t = "fail" -> WhyStep(e)
    [] e.t = "end" -> IF e.r \in ended THEN "ends twice"
                      ELSE IF ~e.ok /\ failed = {} THEN "a process fails" ELSE ""
    [] e.t = "told" -> IF failed = {} THEN "a failure is reported although nothing failed" ELSE ""
    [] e.t = "stuck" -> IF failed = {} THEN "processes wait for each other forever" ELSE ""
    [] OTHER -> "unknown event"
Apply1(e) ==
  CASE e.t = "step" -> /\ done' = [done EXCEPT ![e.s][e.r] = @ \cup {e.step}]
                       /\ UNCHANGED <<cfg, failed, told, ended>>
    [] e.t = "fail" -> /\ failed' = failed \cup {<<e.s, e.r>>}
                       /\ done' = [done EXCEPT ![e.s][e.r] = @ \cup {"failed"}]
                       /\ UNCHANGED <<cfg, told, ended>>
    [] e.t = "told" -> told' = TRUE /\ UNCHANGED <<cfg, done, failed, ended>>
    [] e.t = "end" -> ended' = ended \cup {e.r} /\ UNCHANGED <<cfg, done, failed, told>>
    [] OTHER -> UNCHANGED cvars
Apply(e) == Apply1(e) /\ UNCHANGED <<mpc, mbar, hist>>
WhyEnd == IF failed # {} THEN (IF told THEN "" ELSE "a failure is not reported")
          ELSE IF ended # Procs THEN "some process never ends"
          ELSE IF \E s \in On : ~Complete(s) THEN "an enabled stage was not carried out"
          ELSE ""

(* ---- the control program: stage, barrier, stage, barrier, ...             *)
Order == <<"download", "process", "stat", "tracks", "wind", "hazard",
           "plotdata", "database", "evaluate", "plothazard">>
Steps(s) == IF s \in Parallel THEN <<"start", "finish">> ELSE <<"only">>
Runs(r, s) == s \in On /\ (s \in Parallel \/ r = 0)
\* mpc[r] = <<stage index, step index>>; a process in mbar waits for the others
Req == [s \in Stages |-> Steps(s)]
MInit(c) == CInit(c) /\ mpc = [r \in 0..(c.n - 1) |-> <<1, 1>>] /\ mbar = {} /\ hist = <<>>
Ev(r, k) == [t |-> k, s |-> Order[mpc[r][1]], step |-> Steps(Order[mpc[r][1]])[mpc[r][2]],
             r |-> r, dirs |-> TRUE, conf |-> TRUE]
InStage(r) == /\ mpc[r][1] <= 10 /\ r \notin mbar
              /\ Runs(r, Order[mpc[r][1]]) /\ mpc[r][2] <= Len(Steps(Order[mpc[r][1]]))
MStep(r) == /\ InStage(r) /\ ~(\E t \in failed : r = t[2])
            /\ Apply1(Ev(r, "step"))
            /\ mpc' = [mpc EXCEPT ![r] = <<@[1], @[2] + 1>>]
            /\ hist' = Append(hist, r) /\ UNCHANGED mbar
MFail(r) == /\ InStage(r) /\ failed = {} /\ cfg.fails
            /\ Apply1(Ev(r, "fail"))
            /\ hist' = Append(hist, r) /\ UNCHANGED <<mpc, mbar>>
MArrive(r) == /\ mpc[r][1] <= 10 /\ r \notin mbar /\ ~InStage(r)
              /\ ~(\E t \in failed : r = t[2])
              /\ mbar' = mbar \cup {r}
              /\ hist' = Append(hist, r) /\ UNCHANGED <<cfg, done, failed, told, ended, mpc>>
MRelease == /\ mbar = Procs
            /\ mbar' = {} /\ mpc' = [r \in Procs |-> <<mpc[r][1] + 1, 1>>]
            /\ UNCHANGED <<cfg, done, failed, told, ended, hist>>
MEnd(r) == /\ mpc[r][1] > 10 /\ r \notin ended /\ Apply1([t |-> "end", r |-> r, ok |-> TRUE])
           /\ hist' = Append(hist, r) /\ UNCHANGED <<mpc, mbar>>
MTell == failed # {} /\ ~told /\ Apply1([t |-> "told"]) /\ UNCHANGED <<mpc, mbar, hist>>
MNext == (\E r \in Procs : MStep(r) \/ MFail(r) \/ MArrive(r) \/ MEnd(r)) \/ MRelease \/ MTell
SetSeq(S) == SelectSeq(Order, LAMBDA x : x \in S)
MConfigs == {[n |-> 1, on |-> SetSeq(S), req |-> Req, fails |-> TRUE] : S \in SUBSET Stages}
       \cup {[n |-> 2, on |-> SetSeq(S), req |-> Req, fails |-> TRUE] :
                S \in {X \in SUBSET Stages : Cardinality(X) \in {2, 3, 10}}}
       \cup {[n |-> 3, on |-> SetSeq(Stages), req |-> Req, fails |-> FALSE]}
Init == \E c \in MConfigs : MInit(c)
Spec == Init /\ [][MNext]_vars
View == <<cfg, done, failed, told, ended, mpc, mbar>>
\* whatever the program does next is allowed by the contract
Allowed == \A r \in Procs :
   /\ (InStage(r) /\ ~(\E t \in failed : r = t[2])) => Why(Ev(r, "step")) = ""
   /\ (mpc[r][1] > 10 /\ r \notin ended) => Why([t |-> "end", r |-> r, ok |-> TRUE]) = ""
Finishes == (ended = Procs /\ failed = {}) => WhyEnd = ""
NoCycle == \A s \in Stages : ~Uses(s, s)

(* ---- generation of schedules *)
GConfigs == {[n |-> n, on |-> SetSeq(S), req |-> Req, fails |-> FALSE] :
                n \in 1..4, S \in SUBSET Stages}
GInit == \E c \in GConfigs : MInit(c)
GNext == \/ MNext
         \/ /\ ended = Procs /\ hist # <<>>
            /\ PrintT("GEN" \o ToJson([n |-> cfg.n, on |-> cfg.on, order |-> hist]))
            /\ hist' = <<>> /\ UNCHANGED <<cfg, done, failed, told, ended, mpc, mbar>>
=============================================================================
