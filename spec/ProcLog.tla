------------------------------ MODULE ProcLog ------------------------------
(* The log of processed files: a list of entries on disk, read into memory,   *)
(* and the archive directory.  Files are numbered; a file's state is a pair   *)
(* (content, date).                                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES cfg,      \* files: set size, each file f has a key (directory, name)
          file,     \* file -> <<content, date>> or <<0, 0>> when it is gone
          disk,     \* entries <<file, content, date>> in the log file
          there,    \* the log file exists
          mem,      \* file -> <<content, date>> last entry known to this process, <<0,0>> none
          known,    \* the process has a log file name
          stamp,    \* archive names carry the date
          arch      \* archived contents: set of <<name, content>>
vars == <<cfg, file, disk, there, mem, known, stamp, arch>>

None == <<0, 0>>
Files == 1..cfg.n
InitWith(c) == /\ cfg = c
               /\ file = [f \in 1..c.n |-> None]
               /\ disk = <<>> /\ there = FALSE
               /\ mem = [f \in 1..c.n |-> None] /\ known = FALSE
               /\ stamp = TRUE /\ arch = {}

Latest(m, d) == [f \in Files |->
   LET K == {i \in DOMAIN d : d[i][1] = f} IN
   IF K = {} THEN m[f] ELSE LET i == CHOOSE i \in K : \A j \in K : j <= i IN <<d[i][2], d[i][3]>>]

\* the name a file is archived under: its own, with its date when stamped
ArchName(f) == IF stamp THEN <<f, file[f][2]>> ELSE <<f, 0>>

Why(e) ==
  CASE e.t = "modify" -> ""
    [] e.t = "restart" -> ""
    [] e.t = "load" -> IF e.ok # there THEN "loading the log is reported wrongly" ELSE ""
    [] e.t = "record" -> IF e.err THEN "recording a file fails"
                         ELSE IF e.ok # known THEN "recording a file is reported wrongly" ELSE ""
    [] e.t = "query" ->
         IF e.yes # (mem[e.f] # None /\ mem[e.f][IF e.by = "content" THEN 1 ELSE 2] = e.v)
         THEN (IF e.yes THEN "a file that was not processed is reported as processed"
                        ELSE "a processed file is reported as not processed")
         ELSE ""
    [] e.t = "delete" -> IF e.err THEN "deleting the log fails"
                         ELSE IF e.ok # there THEN "deleting the log is reported wrongly" ELSE ""
    [] e.t = "stamp" -> IF e.now # e.want THEN "the archive time stamp setting is not taken over" ELSE ""
    [] e.t = "archive" ->
         IF ~e.ok THEN "archiving fails"
         ELSE IF e.left THEN "an archived file is still in its old place"
         ELSE IF e.content # file[e.f][1] THEN "the archive does not hold the file's content"
         ELSE IF e.lost # 0 THEN "archiving loses an earlier archive" ELSE ""
    [] OTHER -> "unknown event"

Apply(e) ==
  CASE e.t = "modify" -> file' = [file EXCEPT ![e.f] = <<e.c, e.d>>]
                         /\ UNCHANGED <<cfg, disk, there, mem, known, stamp, arch>>
    [] e.t = "restart" -> mem' = [f \in Files |-> None] /\ known' = FALSE /\ stamp' = TRUE
                          /\ UNCHANGED <<cfg, file, disk, there, arch>>
    [] e.t = "load" -> mem' = Latest(mem, disk) /\ known' = TRUE
                       /\ UNCHANGED <<cfg, file, disk, there, stamp, arch>>
    [] e.t = "record" -> IF known
                         THEN /\ disk' = Append(disk, <<e.f, file[e.f][1], file[e.f][2]>>)
                              /\ there' = TRUE
                              /\ mem' = [mem EXCEPT ![e.f] = file[e.f]]
                              /\ UNCHANGED <<cfg, file, known, stamp, arch>>
                         ELSE UNCHANGED vars
    [] e.t = "delete" -> disk' = <<>> /\ there' = FALSE
                         /\ UNCHANGED <<cfg, file, mem, known, stamp, arch>>
    [] e.t = "stamp" -> stamp' = e.want /\ UNCHANGED <<cfg, file, disk, there, mem, known, arch>>
    [] e.t = "archive" -> /\ arch' = {a \in arch : a[1] # ArchName(e.f)} \cup {<<ArchName(e.f), file[e.f][1]>>}
                          /\ file' = [file EXCEPT ![e.f] = None]
                          /\ UNCHANGED <<cfg, disk, there, mem, known, stamp>>
    [] OTHER -> UNCHANGED vars
WhyEnd == ""
=============================================================================
