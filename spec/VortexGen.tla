----------------------------- MODULE VortexGen -----------------------------
(* All combinations of models to exercise.                                    *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES done
Profiles == {"holland", "powell", "schloemer", "willoughby", "jelesnianski", "rankine", "doubleHolland", "newHolland"}
Documented == Profiles \ {"rankine", "newHolland"}
Fields == {"kepert", "hubbert", "mcconochie"}
Hemis == {"north", "south"}
Pressures == {"holland", "powell", "schloemer", "willoughby", "doubleHolland"}
Speeds == {"willoughby", "holland", "atkinson"}
Cases == [what : {"v"}, p : Profiles, f : {""}, hemi : Hemis, moving : {FALSE}]
         \cup [what : {"p"}, p : Pressures, f : {""}, hemi : Hemis, moving : {FALSE}]
         \cup [what : {"w", "ring"}, p : Profiles, f : Fields, hemi : Hemis, moving : BOOLEAN]
         \cup [what : {"track"}, p : Documented, f : Fields, hemi : Hemis, moving : BOOLEAN]
         \cup [what : {"line"}, p : Documented \ {"doubleHolland"}, f : Fields \ {"kepert"}, hemi : Hemis, moving : BOOLEAN]
         \cup [what : {"s"}, p : Speeds, f : {""}, hemi : {"north"}, moving : {FALSE}]
\* two profiles have no vorticity to rely on, and a ring needs a motion
Sensible(c) == /\ ~(c.p \in {"newHolland", "rankine"} /\ c.f = "kepert")
               /\ c.what = "ring" => c.moving
               /\ c.what = "ring" /\ c.f = "kepert" => c.p \in {"holland", "powell", "schloemer", "willoughby"}
GInit == done = {}
GNext == \E c \in Cases : Sensible(c) /\ done = {} /\ done' = {c} /\ PrintT("GEN" \o ToJson(c))
=============================================================================
