----------------------------- MODULE TrackFile -----------------------------
(* Track sets in memory and track files on disk.  A track is a record         *)
(* [id, rec]: rec is the sequence of its records, each a tuple of integers    *)
(* (number, day, second, age, longitude, latitude, speed, bearing, central    *)
(* pressure, environmental pressure, size) in units of the stored precision.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES cfg,     \* n: number of slots in memory, m: number of files
          mem,     \* slot -> sequence of tracks
          file     \* file -> sequence of tracks ("absent": the empty sequence)
vars == <<cfg, mem, file>>
InitWith(c) == cfg = c /\ mem = [s \in 1..c.n |-> <<>>] /\ file = [f \in 1..c.m |-> <<>>]

NonEmpty(ts) == SelectSeq(ts, LAMBDA t : t.rec # <<>>)
\* reading a directory: all tracks of all files, file by file in the order of their names
All == FlattenSeq([f \in 1..cfg.m |-> file[f]])

Diff(got, want) ==
  IF Len(got) # Len(want) THEN "the number of tracks read differs from the number written"
  ELSE IF got = want THEN ""
  ELSE IF {got[i] : i \in DOMAIN got} = {want[i] : i \in DOMAIN want} THEN "tracks are read in another order"
  ELSE IF \E i \in DOMAIN got : Len(got[i].rec) # Len(want[i].rec) THEN "a track is read with more or fewer records"
  ELSE IF \E i \in DOMAIN got : got[i].id # want[i].id THEN "a track is read with another identifier"
  ELSE IF \E i \in DOMAIN got : \E k \in DOMAIN got[i].rec :
            got[i].rec[k][2] # want[i].rec[k][2] \/ got[i].rec[k][3] # want[i].rec[k][3]
       THEN "a record is read with another time"
  ELSE "a value of a record is read back differently"
\* the lowest central pressure of a track
Low(t) == CHOOSE v \in {r[9] : r \in Range(t.rec)} : \A r \in Range(t.rec) : v <= r[9]
LowsOk(got, lows) == Len(lows) = Len(got) /\ \A i \in DOMAIN got : got[i].rec = <<>> \/ lows[i] = Low(got[i])
\* a track starts in a box <<west, east, south, north>>, edges included
Inside(t, b) == LET r == t.rec[1] IN b[1] <= r[5] /\ r[5] <= b[2] /\ b[3] <= r[6] /\ r[6] <= b[4]

Why(e) ==
  CASE e.t = "make" -> ""
    [] e.t = "save" -> IF ~e.ok THEN "saving tracks fails"
                       ELSE IF e.after # mem[e.s] THEN "saving changes the tracks in memory" ELSE ""
    [] e.t = "load" -> IF ~e.ok THEN (IF file[e.f] = <<>> THEN "" ELSE "reading a track file fails")
                       ELSE IF Diff(e.got, file[e.f]) # "" THEN Diff(e.got, file[e.f])
                       ELSE IF ~LowsOk(e.got, e.lows) THEN "the lowest pressure of a track is not that of its records" ELSE ""
    [] e.t = "loadall" -> IF ~e.ok THEN "reading a directory of track files fails" ELSE IF Diff(e.got, All) # "" THEN Diff(e.got, All)
                       ELSE IF ~LowsOk(e.got, e.lows) THEN "the lowest pressure of a track is not that of its records" ELSE ""
    [] e.t = "where" -> IF e.got = [i \in DOMAIN e.tracks |-> Inside(e.tracks[i], e.box)] THEN "" ELSE "a track is said to start in a region in which it does not, or the reverse"
    [] e.t = "attr" -> IF e.leak THEN "the attributes of one file appear in another" ELSE ""
    [] OTHER -> "unknown event"
Apply(e) ==
  /\ cfg' = cfg
  /\ file' = IF e.t = "save" THEN [file EXCEPT ![e.f] = NonEmpty(mem[e.s])] ELSE file
  /\ mem' = IF e.t = "make" THEN [mem EXCEPT ![e.s] = e.tracks]
            ELSE IF e.t = "load" /\ e.ok THEN [mem EXCEPT ![e.s] = file[e.f]] ELSE mem
WhyEnd == ""
=============================================================================
