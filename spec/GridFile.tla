----------------------------- MODULE GridFile ------------------------------
(* Gridded data and tables in files.  A file holds coordinate axes, variables *)
(* on them and attributes; writing replaces the whole file and leaves all     *)
(* others alone, reading returns what was last written.  Values are whole     *)
(* numbers (scaled), Missing marks a missing cell; q is the precision a       *)
(* variable is written with and u its unit ("-": not looked at).             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES cfg,   \* files: how many
          store  \* store[f]: contents, or NoFile
vars == <<cfg, store>>
NoFile == [dims |-> <<>>, vars |-> <<>>, atts |-> <<>>, ctol |-> -1]
InitWith(c) == cfg = c /\ store = [f \in 1..c.files |-> NoFile]
Missing == -999999999
Abs(x) == IF x < 0 THEN -x ELSE x
Same(a, b, tol) == IF a = Missing \/ b = Missing THEN a = b ELSE Abs(a - b) <= tol
SameAll(v, w, tol) == Len(v) = Len(w) /\ \A i \in DOMAIN v : Same(v[i], w[i], tol)
Range(s) == {s[i] : i \in DOMAIN s}
Names(s) == {s[i].n : i \in DOMAIN s}
Entry(s, n) == CHOOSE x \in Range(s) : x.n = n
Get(s, n) == Entry(s, n).v
\* attributes every file may have besides the given ones
Stamp == {"created_on", "created_by", "Conventions", "title"}

WhyRead(e) ==
  LET g == store[e.f] IN
  IF g.ctol = -1 THEN "a file is read that was never written"
  ELSE IF Names(e.dims) # Names(g.dims) THEN "the axes of the file are not those written"
  ELSE IF \E n \in Names(e.dims) : ~SameAll(Get(e.dims, n), Get(g.dims, n), g.ctol) THEN "a coordinate is not the one written"
  ELSE IF Names(e.vars) # Names(g.vars) THEN "the variables of the file are not those written"
  ELSE IF \E n \in Names(e.vars) : ~SameAll(Get(e.vars, n), Get(g.vars, n), Entry(g.vars, n).q)
       THEN IF \E n \in Names(e.vars) : Len(Get(e.vars, n)) = Len(Get(g.vars, n)) /\ \E i \in DOMAIN Get(g.vars, n) :
                  (Get(e.vars, n)[i] = Missing) # (Get(g.vars, n)[i] = Missing)
            THEN "a missing value is not missing any more or a value is" ELSE "a value is not the one written"
  ELSE IF \E n \in Names(e.vars) : Entry(e.vars, n).u # "-" /\ Entry(e.vars, n).u # Entry(g.vars, n).u THEN "the unit of a variable is not the one written"
  ELSE IF e.atts # <<>> /\ \E n \in Names(g.atts) : n \notin Names(e.atts) \/ Get(e.atts, n) # Get(g.atts, n) THEN "an attribute is not the one written"
  ELSE IF e.atts # <<>> /\ ~(Names(e.atts) \subseteq (Names(g.atts) \cup Stamp)) THEN "the file has an attribute of another file"
  ELSE ""
Why(e) ==
  CASE e.t = "save" -> IF e.f \in DOMAIN store THEN "" ELSE "malformed"
    [] e.t = "args" -> IF e.before = e.after THEN "" ELSE "the caller's data was altered"
    [] e.t = "read" -> IF e.f \in DOMAIN store THEN WhyRead(e) ELSE "malformed"
    [] e.t = "unwritten" -> IF \A i \in DOMAIN e.v : e.v[i] = Missing THEN "" ELSE "a variable has values before any are written"
    [] e.t = "refuse" -> \* more or fewer axes than values, or a description with a part missing
         IF e.raised = (IF e.what \in {"more", "fewer"} THEN "ValueError" ELSE "KeyError") THEN "" ELSE "data that does not fit its axes is accepted"
    [] OTHER -> "unknown event"
Apply(e) ==
  CASE e.t = "save" -> store' = [store EXCEPT ![e.f] = [dims |-> e.dims, vars |-> e.vars, atts |-> e.atts, ctol |-> e.ctol]]
                       /\ UNCHANGED cfg
    [] OTHER -> UNCHANGED vars
WhyEnd == ""
=============================================================================
