------------------------------- MODULE Config -------------------------------
(* Looking up options: values set at run time, then the user's file, then the *)
(* built-in defaults, then the caller's fallback.  Keys are lower-case option *)
(* names prefixed with their section; raw texts are parsed by cfg.parse, a    *)
(* table from "kind|text" to the typed value's canonical text.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES cfg,      \* defaults: key -> text; parse: "kind|text" -> value; files: name -> (key -> text)
          set,      \* key -> text set in this process
          file      \* name of the file this process has read, "" before
vars == <<cfg, set, file>>
InitWith(c) == cfg = c /\ set = <<>> /\ file = ""

Over(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN f THEN f[k] ELSE g[k]]
User == IF file = "" THEN <<>> ELSE cfg.files[file]
View == Over(set, Over(User, cfg.defaults))
Parse(kind, text) == cfg.parse[kind \o "|" \o text]

Expected(e) == IF e.k \in DOMAIN View THEN Parse(e.kind, View[e.k])
               ELSE IF e.fb # "" THEN e.fb ELSE "error"
Why(e) ==
  CASE e.t = "read" -> IF e.ok # (e.f \in DOMAIN cfg.files \/ file # "" \/ e.f = "")
                       THEN "reading a configuration file is reported wrongly" ELSE ""
    [] e.t = "set" -> IF e.ok THEN "" ELSE "setting an option fails"
    [] e.t = "new" -> ""
    [] e.t = "write" -> IF e.ok THEN "" ELSE "writing the configuration fails"
    [] e.t = "has" -> IF e.yes # (e.k \in DOMAIN View) THEN "presence of an option is reported wrongly" ELSE ""
    [] e.t = "get" -> IF e.got # Expected(e)
                      THEN (IF e.k \in DOMAIN set THEN "a value set during the run is not returned as given"
                            ELSE IF e.k \in DOMAIN User THEN "a value of the user's file is not returned as given"
                            ELSE IF e.k \in DOMAIN cfg.defaults THEN "a built-in default is not returned as given"
                            ELSE "an option that is given nowhere does not yield the fallback")
                      ELSE ""
    [] OTHER -> "unknown event"
Apply(e) ==
  CASE e.t = "read" -> file' = (IF file = "" /\ e.ok THEN e.f ELSE file) /\ UNCHANGED <<cfg, set>>
    [] e.t = "set" -> set' = Over(e.k :> e.text, set) /\ UNCHANGED <<cfg, file>>
    [] e.t = "write" -> \* the written file is the whole view
                        cfg' = [cfg EXCEPT !.files = Over(e.f :> View, @)] /\ UNCHANGED <<set, file>>
    [] e.t = "new" -> set' = <<>> /\ file' = "" /\ UNCHANGED cfg
    [] OTHER -> UNCHANGED vars
WhyEnd == ""
=============================================================================
