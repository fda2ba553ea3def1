----------------------------- MODULE Catalogue -----------------------------
(* The stochastic track catalogue as a function of its seeds.  A scenario    *)
(* (configuration, seeds) is run several times: serially, again in the same   *)
(* process after other runs, and shared over several processes.  Contents of  *)
(* a simulation are integer codes (equal iff the generated tracks are equal). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES cfg,   \* nsim: simulations of each scenario (1..nsc); all: TRUE where so
                 \* many storms are expected that no simulation can be without
          ref,   \* ref[s]: contents of the scenario's first run, <<>> before it
          cur,   \* contents produced so far by the current run
          run,   \* [sc, n] of the current run, n = 0 when none is open
          lead   \* codes of the first storm of every simulation of the current run
vars == <<cfg, ref, cur, run, lead>>

NONE == -1
Scenarios == 1..Len(cfg.nsim)
Blank(s) == [i \in 1..cfg.nsim[s] |-> NONE]
InitWith(c) == /\ cfg = c
               /\ ref = [s \in 1..Len(c.nsim) |-> <<>>]
               /\ cur = <<>>
               /\ run = [sc |-> 1, n |-> 0]
               /\ lead = {}

Why(e) ==
  CASE e.t = "run" -> IF run.n # 0 THEN "machinery: overlapping runs" ELSE ""
    [] e.t = "file" ->   \* simulation i (1-based) has content v; f is its first storm
         IF run.n = 0 THEN "machinery: file outside a run"
         ELSE IF e.i \notin DOMAIN cur THEN "a file that belongs to no simulation"
         ELSE IF cur[e.i] # NONE THEN "a simulation is generated twice"
         ELSE IF ref[run.sc] # <<>> /\ ref[run.sc][e.i] # e.v
         THEN "the catalogue depends on the run, not only on the seeds"
         ELSE IF e.f # 0 /\ e.f \in lead THEN "two simulations use the same random numbers"
         ELSE IF e.names = FALSE THEN "storms of a simulation do not carry its own identifiers"
         ELSE ""
    [] e.t = "write" -> IF e.times # 1 THEN "a simulation is generated twice" ELSE ""
    [] e.t = "end" ->   \* present: simulations that left a file
         IF ref[run.sc] # <<>> /\ cur # ref[run.sc]
         THEN "a run leaves a different set of files"
         ELSE IF cfg.all[run.sc] /\ \E i \in DOMAIN cur : cur[i] = NONE
         THEN "a simulation is missing"
         ELSE ""
    [] e.t = "fail" -> "the track generation fails"
    [] e.t = "stuck" -> "the track generation does not finish"
    [] e.t = "lost" -> "a message is never received"
    [] OTHER -> "unknown event"

Apply(e) ==
  CASE e.t = "run" -> /\ run' = [sc |-> e.s, n |-> e.n]
                      /\ cur' = Blank(e.s) /\ lead' = {}
                      /\ UNCHANGED <<cfg, ref>>
    [] e.t = "file" -> /\ cur' = [cur EXCEPT ![e.i] = e.v]
                       /\ lead' = lead \cup {e.f}
                       /\ UNCHANGED <<cfg, ref, run>>
    [] e.t = "end" -> /\ ref' = [ref EXCEPT ![run.sc] = cur]
                      /\ run' = [run EXCEPT !.n = 0]
                      /\ UNCHANGED <<cfg, cur, lead>>
    [] OTHER -> UNCHANGED vars

WhyEnd == IF run.n # 0 THEN "the run did not finish" ELSE ""
=============================================================================
