------------------------------- MODULE Polite --------------------------------
(***************************************************************************)
(* Design of politeness: every URL in process looks up robots.txt (two may *)
(* ask at the same time), passes the token bucket of the limiter, reserves *)
(* the next slot of its host and waits for it. Events drive PoliteObs.     *)
(* One tick is 500 ms.                                                     *)
(***************************************************************************)
EXTENDS PoliteObs, TLC
CONSTANTS N, Delays, Covers, Rate, MaxT, Spacing
VARIABLES now, pc, till, last, have, tok, tokt, lastt
dvars == <<now, pc, till, last, have, tok, tokt, lastt>>
U == 1..N
T == 500
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

Cfgs == [mode : {"engine"}, nh : {Len(Delays)}, host : [U -> 1..Len(Delays)], delay : {Delays},
         cover : Covers, n : {Rate}, lim : {TRUE}, conc : {0}, impolite : {FALSE}]

DInit ==
  /\ Init0 /\ now = 0 /\ pc = [u \in U |-> "boot"] /\ till = [u \in U |-> 0]
  /\ last = <<>> /\ have = {} /\ tok = Rate * 1000 /\ tokt = 0 /\ lastt = 0

Boot ==
  /\ cfg.nh = 0
  /\ \E c \in Cfgs : Begin(c) /\ last' = [h \in 1..c.nh |-> 0]
  /\ pc' = [u \in U |-> "queued"]
  /\ UNCHANGED <<now, till, have, tok, tokt, lastt>>

D(u) == cfg.delay[cfg.host[u]]
Go(u, a, b) == pc[u] = a /\ pc' = [pc EXCEPT ![u] = b]

Dequeue(u) == Go(u, "queued", "robots") /\ canc = -1 /\ Deq([u |-> u, t |-> now]) /\ UNCHANGED <<now, till, last, have, tok, tokt, lastt>>
Ask(u) == Go(u, "robots", "answer") /\ cfg.host[u] \notin have /\ RobotsReq([h |-> cfg.host[u], t |-> now]) /\ UNCHANGED <<now, till, last, have, tok, tokt, lastt>>
Answer(u) == Go(u, "answer", "limit") /\ have' = have \cup {cfg.host[u]} /\ UNCHANGED <<vars, now, till, last, tok, tokt, lastt>>
Known(u) == Go(u, "robots", "limit") /\ cfg.host[u] \in have /\ UNCHANGED <<vars, now, till, last, have, tok, tokt, lastt>>

(* tokens are counted in thousandths; the bucket holds Rate of them *)
Limit(u) ==
  /\ Go(u, "limit", "limited")
  /\ LimitCall([u |-> u, c |-> u, t |-> now])
  /\ LET b == Min(Rate * 1000, tok + (now - tokt) * Rate) - 1000 IN
     IF cfg.cover[u] THEN /\ tok' = b /\ tokt' = now
                          /\ till' = [till EXCEPT ![u] = IF b >= 0 THEN now ELSE now + ((0 - b) \div Rate)]
     ELSE till' = [till EXCEPT ![u] = now] /\ UNCHANGED <<tok, tokt>>
  /\ UNCHANGED <<now, last, have, lastt>>
Admit(u) == Go(u, "limited", "delay") /\ now >= till[u] /\ LimitRet([u |-> u, c |-> u, t |-> now, kind |-> "ok"]) /\ UNCHANGED <<now, till, last, have, tok, tokt, lastt>>

Reserve(u) ==
  /\ Go(u, "delay", "wait")
  /\ LET h == cfg.host[u] at == IF Spacing THEN Max(now + D(u), last[h] + D(u)) ELSE now + D(u) IN
     IF D(u) = 0 THEN till' = [till EXCEPT ![u] = now] /\ UNCHANGED last
     ELSE till' = [till EXCEPT ![u] = at] /\ last' = [last EXCEPT ![h] = at]
  /\ UNCHANGED <<vars, now, have, tok, tokt, lastt>>
Fetch(u) == Go(u, "wait", "done") /\ now >= till[u] /\ FetchReq([u |-> u, t |-> now]) /\ UNCHANGED <<now, till, last, have, tok, tokt, lastt>>

CancelNow == canc = -1 /\ cfg.nh > 0 /\ Cancel([t |-> now]) /\ UNCHANGED dvars
Stopped(u) == /\ canc >= 0 /\ pc[u] \in {"queued", "robots", "answer", "limit", "delay", "wait"} /\ pc' = [pc EXCEPT ![u] = "done"]
              /\ UNCHANGED <<vars, now, till, last, have, tok, tokt, lastt>>
LStop(u) == /\ canc >= 0 /\ Go(u, "limited", "done") /\ LimitRet([u |-> u, c |-> u, t |-> now, kind |-> "ctx"]) /\ UNCHANGED <<now, till, last, have, tok, tokt, lastt>>

(* time passes only when nothing is ready, as in the recorded runs *)
Ready(u) == pc[u] \in {"queued", "robots", "answer", "limit", "delay"} \/ (pc[u] \in {"limited", "wait"} /\ (now >= till[u] \/ canc >= 0))
Tick == cfg.nh > 0 /\ now < MaxT * T /\ (\A u \in U : ~Ready(u)) /\ (\E u \in U : pc[u] # "done") /\ now' = now + T /\ UNCHANGED <<vars, pc, till, last, have, tok, tokt, lastt>>
Over == \A u \in U : pc[u] = "done"
Return == Over /\ lastt = 0 /\ Ret([t |-> now]) /\ lastt' = 1 /\ UNCHANGED <<now, pc, till, last, have, tok, tokt>>

Busy == \E u \in U : Dequeue(u) \/ Ask(u) \/ Answer(u) \/ Known(u) \/ Limit(u) \/ Admit(u) \/ Reserve(u) \/ Fetch(u) \/ Stopped(u) \/ LStop(u)
DNext == Boot \/ Busy \/ CancelNow \/ Tick \/ Return
DSpec == DInit /\ [][DNext]_<<vars, dvars>> /\ WF_<<vars, dvars>>(Boot \/ Busy \/ Tick \/ Return)

AllCovers == [U -> BOOLEAN]
TwoCovers == {[u \in U |-> TRUE], [u \in U |-> u % 2 = 1]}
QDelays == <<1000, 0>>
TDelays == <<1500, 500, 0>>
Good == viol = {}
Finishes == <>(lastt = 1)
(* every URL that is not cancelled gets fetched no later than the sum of all waits *)
Fair == \A u \in U : (pc[u] = "wait" /\ canc = -1) => till[u] <= now + D(u) * N
=============================================================================
