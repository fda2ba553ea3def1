---------------------------- MODULE GridFileGen ----------------------------
(* Histories of writing and reading: files 1 and 2 are netCDF, 3 and 4 ascii  *)
(* grids, 5 a table.                                                          *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Length
VARIABLES ops, there, printed
Kind(f) == IF f <= 2 THEN "nc" ELSE IF f <= 4 THEN "asc" ELSE "tab"
Ways == [nc |-> {"plain", "given", "none", "open", "late", "masked", "parts"}, asc |-> {"name", "handle", "comma", "column"},
         tab |-> {"header", "bare", "newdir", "local"}]
Reads == [nc |-> {"tools", "grid", "masked", "convert"}, asc |-> {"grid"}, tab |-> {"load"}]
GInit == ops = <<>> /\ there = {} /\ printed = FALSE
Op == \E f \in 1..5 :
        \/ \E w \in Ways[Kind(f)] : ops' = Append(ops, [op |-> "save", f |-> f, how |-> w]) /\ there' = there \cup {f}
        \/ f \in there /\ \E w \in Reads[Kind(f)] : ops' = Append(ops, [op |-> "read", f |-> f, how |-> w]) /\ there' = there
GNext == \/ Len(ops) < Length /\ Op /\ UNCHANGED printed
         \/ Len(ops) = Length /\ ~printed /\ printed' = TRUE /\ UNCHANGED <<ops, there>> /\ PrintT("GEN" \o ToJson([ops |-> ops]))
=============================================================================
