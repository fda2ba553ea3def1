---------------------------- MODULE GridFileMC -----------------------------
(* A writer that stamps the attributes it is given into the file.  With       *)
(* Leak = "default" a caller who gives none shares one attribute table with   *)
(* all earlier such callers; with Leak = "caller" the stamp is put into the   *)
(* table of the caller.  Buf is the record of the caller's own table.         *)
EXTENDS GridFile
CONSTANTS NFiles, Vals, Leak, MaxOps
VARIABLES disk, shared, own, n, last
mvars == <<cfg, store, disk, shared, own, n, last>>
MInit == /\ InitWith([files |-> NFiles])
         /\ disk = [f \in 1..NFiles |-> NoFile]
         /\ shared = <<>> /\ own = <<[n |-> "own", v |-> 1]>> /\ n = 0
         /\ last = [t |-> "save", f |-> 1]
Tables == {<<>>, own}
Stamped(a) == Append(a, [n |-> "created_by", v |-> 0])
Add(a, b) == a \o SelectSeq(b, LAMBDA x : x.n \notin Names(a))
Save(f, v, a) ==
  LET e == [t |-> "save", f |-> f, dims |-> <<[n |-> "x", v |-> <<0, 1>>]>>, vars |-> <<[n |-> "z", v |-> v, q |-> 0, u |-> "m"]>>, atts |-> a, ctol |-> 0]
      put == IF Leak = "default" THEN Add(Stamped(a), shared) ELSE Stamped(a)
  IN /\ Apply(e)
     /\ disk' = [disk EXCEPT ![f] = [dims |-> e.dims, vars |-> e.vars, atts |-> put, ctol |-> 0]]
     /\ shared' = put
     /\ own' = IF Leak = "caller" /\ a # <<>> THEN Stamped(own) ELSE own
     /\ last' = [t |-> "args", before |-> own, after |-> own']
Read(f) == /\ disk[f].ctol # -1
           /\ last' = [t |-> "read", f |-> f, dims |-> disk[f].dims, vars |-> disk[f].vars, atts |-> disk[f].atts]
           /\ UNCHANGED <<cfg, store, disk, shared, own>>
MNext == /\ n < MaxOps /\ n' = n + 1
         /\ \E f \in 1..NFiles : Read(f) \/ \E v \in [1..2 -> Vals \cup {Missing}], a \in Tables : Save(f, v, a)
MSpec == MInit /\ [][MNext]_mvars
Accepted == last.t = "save" \/ Why(last) = ""
=============================================================================
