---------------------------- MODULE FarmProtocol ----------------------------
(* The master/worker message exchange used by the hazard calculation, the     *)
(* event database and the wind-field validation.  Process 0 hands one task    *)
(* (or "no more work") to every worker, then answers each result with another *)
(* task or with "no more work".  All processes meet at a barrier before and   *)
(* after.  cfg.sync: a send completes only when the receiver is receiving.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

VARIABLES cfg, pc, chan, md, w, p, term, msrc, wtask, computed, placed, rel, hist
vars == <<cfg, pc, chan, md, w, p, term, msrc, wtask, computed, placed, rel, hist>>

Ranks   == 0..(cfg.n - 1)
Workers == 1..(cfg.n - 1)
Tasks   == 1..cfg.T

InitWith(c) ==
  /\ cfg = c
  /\ pc = [r \in 0..(c.n-1) |-> "start"]
  /\ chan = [x \in (0..(c.n-1)) \X (0..(c.n-1)) |-> <<>>]
  /\ md = 1 /\ w = 0 /\ p = c.n - 1 /\ term = 0 /\ msrc = 0
  /\ wtask = [r \in 0..(c.n-1) |-> 0]
  /\ computed = [k \in 1..c.T |-> 0]
  /\ placed = [k \in 1..c.T |-> 0]
  /\ rel = {}
  /\ hist = <<>>

AtBarrier(r) == pc[r] \in {"b1", "b2"}

\* is rank r able to receive from s right now
Receiving(r, s) == IF r = 0 THEN pc[0] = "collect" /\ s > 0
                            ELSE pc[r] = "wait" /\ s = 0
NoneTo(r) == \A s \in Ranks : chan[<<s, r>>] = <<>>
CanSend(r, d) == ~cfg.sync \/ (Receiving(d, r) /\ NoneTo(d))

WhyAct(e) ==
  LET r == e.r IN
  CASE e.op = "start" -> IF pc[r] = "start" THEN "" ELSE "started twice"
    [] e.op = "coll" ->
         IF ~AtBarrier(r) THEN "barrier entered at an unexpected point"
         ELSE IF r \in rel THEN ""
         ELSE IF rel = {} /\ \A q \in Ranks : pc[q] = pc[r] THEN ""
         ELSE "barrier left before every process reached it"
    [] e.op = "send" ->
         IF r = 0
         THEN IF pc[0] = "dist" /\ e.peer = md /\ md <= cfg.n - 1
              THEN IF CanSend(0, md) THEN "" ELSE "send would block"
              ELSE IF pc[0] = "reply" /\ e.peer = msrc
              THEN IF CanSend(0, msrc) THEN "" ELSE "send would block"
              ELSE "master sends when it should not"
         ELSE IF pc[r] = "res" /\ e.peer = 0
              THEN IF CanSend(r, 0) THEN "" ELSE "send would block"
              ELSE "worker sends when it should not"
    [] e.op = "recv" ->
         IF ~Receiving(r, e.peer) THEN "receives when it should not"
         ELSE IF chan[<<e.peer, r>>] = <<>> THEN "receives a message nobody sent"
         ELSE ""
    [] e.op = "end" -> IF pc[r] = "after" THEN "" ELSE "process ended early"
    [] OTHER -> "unknown operation"

Why(e) == IF e.r \in Ranks THEN WhyAct(e) ELSE "unknown process"

NextW == IF w < cfg.T THEN w + 1 ELSE w
Payload == IF w < cfg.T THEN w + 1 ELSE 0

Release(r) ==
  LET set == IF rel = {} THEN Ranks ELSE rel IN
  /\ rel' = set \ {r}
  /\ pc' = [pc EXCEPT ![r] =
              IF pc[r] = "b2" THEN "after"
              ELSE IF cfg.n = 1 THEN "b2"
              ELSE IF r = 0 THEN "dist" ELSE "wait"]

ApplyAct(e) ==
  LET r == e.r IN
  CASE e.op = "start" ->
         /\ pc' = [pc EXCEPT ![r] = "b1"]
         /\ UNCHANGED <<cfg, chan, md, w, p, term, msrc, wtask, computed, placed, rel>>
    [] e.op = "coll" ->
         /\ Release(r)
         /\ IF cfg.n = 1 /\ pc[r] = "b1"
            THEN computed' = [k \in Tasks |-> 1] /\ placed' = [k \in Tasks |-> 1]
            ELSE UNCHANGED <<computed, placed>>
         /\ UNCHANGED <<cfg, chan, md, w, p, term, msrc, wtask>>
    [] e.op = "send" /\ r = 0 /\ pc[0] = "dist" ->
         LET newp == IF w < cfg.T THEN p ELSE w
             last == md = cfg.n - 1 IN
         /\ chan' = [chan EXCEPT ![<<0, md>>] = Append(@, Payload)]
         /\ w' = NextW
         /\ p' = newp
         /\ md' = md + 1
         /\ pc' = [pc EXCEPT ![0] = IF ~last THEN "dist"
                                    ELSE IF newp > 0 THEN "collect" ELSE "b2"]
         /\ UNCHANGED <<cfg, term, msrc, wtask, computed, placed, rel>>
    [] e.op = "send" /\ r = 0 /\ pc[0] = "reply" ->
         LET nt == IF w < cfg.T THEN term ELSE term + 1 IN
         /\ chan' = [chan EXCEPT ![<<0, msrc>>] = Append(@, Payload)]
         /\ w' = NextW
         /\ term' = nt
         /\ pc' = [pc EXCEPT ![0] = IF nt < p THEN "collect" ELSE "b2"]
         /\ UNCHANGED <<cfg, md, p, msrc, wtask, computed, placed, rel>>
    [] e.op = "send" /\ r > 0 ->
         /\ chan' = [chan EXCEPT ![<<r, 0>>] = Append(@, wtask[r])]
         /\ pc' = [pc EXCEPT ![r] = "wait"]
         /\ wtask' = [wtask EXCEPT ![r] = 0]
         /\ UNCHANGED <<cfg, md, w, p, term, msrc, computed, placed, rel>>
    [] e.op = "recv" /\ r = 0 ->
         LET k == Head(chan[<<e.peer, 0>>]) IN
         /\ chan' = [chan EXCEPT ![<<e.peer, 0>>] = Tail(@)]
         /\ placed' = [placed EXCEPT ![k] = @ + 1]
         /\ msrc' = e.peer
         /\ pc' = [pc EXCEPT ![0] = "reply"]
         /\ UNCHANGED <<cfg, md, w, p, term, wtask, computed, rel>>
    [] e.op = "recv" /\ r > 0 ->
         LET k == Head(chan[<<0, r>>]) IN
         /\ chan' = [chan EXCEPT ![<<0, r>>] = Tail(@)]
         /\ IF k = 0
            THEN /\ pc' = [pc EXCEPT ![r] = "b2"]
                 /\ UNCHANGED <<wtask, computed>>
            ELSE /\ pc' = [pc EXCEPT ![r] = "res"]
                 /\ wtask' = [wtask EXCEPT ![r] = k]
                 /\ computed' = [computed EXCEPT ![k] = @ + 1]
         /\ UNCHANGED <<cfg, md, w, p, term, msrc, placed, rel>>
    [] e.op = "end" ->
         /\ pc' = [pc EXCEPT ![r] = "done"]
         /\ UNCHANGED <<cfg, chan, md, w, p, term, msrc, wtask, computed, placed, rel>>

Apply(e) == ApplyAct(e) /\ hist' = hist

AllDone == \A r \in Ranks : pc[r] = "done"
WhyEnd == IF ~AllDone THEN "some process never ended"
          ELSE IF \E x \in DOMAIN chan : chan[x] # <<>> THEN "message never received"
          ELSE IF \E k \in Tasks : placed[k] # 1 THEN "task not stored exactly once"
          ELSE ""

(* ---------------- exhaustive checking ---------------- *)
Events == { [op |-> o, r |-> r, peer |-> q] :
              o \in {"start", "coll", "send", "recv", "end"}, r \in Ranks, q \in Ranks }
\* one peer value per peerless operation keeps the graph small
Canon(e) == e.op \in {"send", "recv"} \/ e.peer = 0

Configs == [n : 1..4, T : 0..4, sync : BOOLEAN]
Init == \E c \in Configs : InitWith(c)
Next == \E e \in Events : Canon(e) /\ Why(e) = "" /\ Apply(e)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

ExactlyOnce == \A k \in Tasks : computed[k] <= 1 /\ placed[k] <= computed[k]
NoStuck == AllDone \/ \E e \in Events : Canon(e) /\ Why(e) = ""
Complete == AllDone => WhyEnd = ""
Bounded == \A x \in DOMAIN chan : Len(chan[x]) <= 1
Termination == <>AllDone

(* refinement: the message exchange implements the abstract work pool *)
InFlight(k) == \/ \E x \in DOMAIN chan : \E i \in 1..Len(chan[x]) : chan[x][i] = k
               \/ \E r \in Ranks : wtask[r] = k
TaskState == [k \in Tasks |-> IF placed[k] > 0 THEN "stored"
                              ELSE IF InFlight(k) THEN "taken" ELSE "todo"]
WP == INSTANCE WorkPool WITH NoOne <- 0, wcfg <- [n |-> cfg.n, T |-> cfg.T],
        st <- TaskState, ended <- {r \in Ranks : pc[r] = "done"}
\* with one process tasks are taken and stored in one step: excluded here
RefConfigs == [n : 2..4, T : 0..4, sync : BOOLEAN]
RefInit == \E c \in RefConfigs : InitWith(c)
RefSpec == RefInit /\ [][Next]_vars
Refines == WP!WSafe

(* ---------------- behaviour generation ---------------- *)
GenConfigs == [n : 2..5, T : 0..7, sync : BOOLEAN]
GInit == \E c \in GenConfigs : InitWith(c)
GStep(e) == /\ Canon(e) /\ Why(e) = "" /\ ApplyAct(e)
            /\ hist' = Append(hist, e)
GNext == \/ \E e \in Events : GStep(e)
         \/ /\ AllDone /\ Len(hist) > 0
            /\ PrintT("GEN" \o ToJson([cfg |-> cfg, ev |-> hist]))
            /\ hist' = <<>> /\ UNCHANGED <<cfg, pc, chan, md, w, p, term, msrc, wtask, computed, placed, rel>>
=============================================================================
