------------------------------- MODULE Fetch --------------------------------
(***************************************************************************)
(* Design of the fetcher: request, classify, discard, back off, retry; the *)
(* page's body is left to the scrape, which reads some of it, and is then  *)
(* drained and closed. Every step performs its FetchObs event.             *)
(***************************************************************************)
EXTENDS FetchObs
CONSTANTS N, Max, MinB, MaxB, Outcomes, Step0, MaxT, Drains
VARIABLES now, pc, till, att, nb
dvars == <<now, pc, till, att, nb>>
F == 1..N
QOutcomes == {[kind |-> "ok", status |-> 200, temp |-> FALSE, b |-> 1], [kind |-> "status", status |-> 404, temp |-> FALSE, b |-> 1],
              [kind |-> "status", status |-> 503, temp |-> TRUE, b |-> 1], [kind |-> "status", status |-> 500, temp |-> FALSE, b |-> 1],
              [kind |-> "err", status |-> 0, temp |-> TRUE, b |-> 0], [kind |-> "err", status |-> 0, temp |-> FALSE, b |-> 1]}
Body0 == [f |-> 0, eof |-> FALSE, err |-> FALSE, closed |-> FALSE]

DInit == Init0 /\ now = 0 /\ pc = [f \in F |-> "boot"] /\ till = [f \in F |-> 0] /\ att = [f \in F |-> 0] /\ nb = [f \in F |-> 0]
Boot == /\ cfg.mode = "" /\ \E m \in {"direct", "engine"} : Begin([mode |-> m, max |-> Max, minb |-> MinB, maxb |-> MaxB, n |-> N])
        /\ pc' = [f \in F |-> "send"] /\ UNCHANGED <<now, till, att, nb>>
To(f, a, b) == pc[f] = a /\ pc' = [pc EXCEPT ![f] = b]
Send(f) == To(f, "send", "sent") /\ Req([f |-> f, ok |-> TRUE, t |-> now]) /\ att' = [att EXCEPT ![f] = @ + 1] /\ UNCHANGED <<now, till, nb>>
(* bodies are numbered per fetch and request *)
Id(f) == 100 * f + att[f]
Answer(f) ==
  /\ pc[f] = "sent"
  /\ \E o \in Outcomes :
       /\ Ans([f |-> f, b |-> IF o.b = 0 THEN 0 ELSE Id(f), kind |-> o.kind, status |-> o.status, temp |-> o.temp, t |-> now])
       /\ pc' = [pc EXCEPT ![f] = IF o.kind = "ok" THEN (IF cfg.mode = "engine" THEN "scrape" ELSE "fin") ELSE IF o.b = 0 THEN "judge" ELSE IF Drains THEN "drain" ELSE "close"]
  /\ UNCHANGED <<now, till, att, nb>>
Drain(f) == To(f, "drain", "close") /\ \E e \in {"beof", "berr"} : Body([e |-> e, b |-> Id(f)]) /\ UNCHANGED <<now, till, att, nb>>
Close(f) == To(f, "close", "judge") /\ Body([e |-> "bclose", b |-> Id(f)]) /\ UNCHANGED <<now, till, att, nb>>
Judge(f) ==
  /\ pc[f] = "judge"
  /\ IF ft[f].temp /\ att[f] < Max
     THEN till' = [till EXCEPT ![f] = now + Wait(att[f])] /\ pc' = [pc EXCEPT ![f] = "wait"]
     ELSE pc' = [pc EXCEPT ![f] = IF cfg.mode = "engine" THEN "ack" ELSE "fin"] /\ UNCHANGED till
  /\ UNCHANGED <<vars, now, att, nb>>
Awake(f) == To(f, "wait", "send") /\ now >= till[f] /\ UNCHANGED <<vars, now, till, att, nb>>
Cut(f) == To(f, "wait", IF cfg.mode = "engine" THEN "ack" ELSE "cut") /\ canc >= 0 /\ canc < till[f] /\ UNCHANGED <<vars, now, till, att, nb>>
Kind(s) == IF s.kind = "ok" THEN "page" ELSE IF s.kind = "status" /\ s.status = 404 THEN "nil" ELSE "err"
Fin(f) == To(f, "fin", "done") /\ FRet([f |-> f, kind |-> Kind(ft[f]), status |-> ft[f].status, wraps |-> TRUE, ctx |-> FALSE, t |-> now]) /\ UNCHANGED <<now, till, att, nb>>
FinCut(f) == To(f, "cut", "done") /\ FRet([f |-> f, kind |-> "err", status |-> 0, wraps |-> FALSE, ctx |-> TRUE, t |-> now]) /\ UNCHANGED <<now, till, att, nb>>
ScrapeIt(f) == To(f, "scrape", "scraping") /\ Scrape([f |-> f]) /\ UNCHANGED <<now, till, att, nb>>
Read(f) == pc[f] = "scraping" /\ ~bd[Id(f)].eof /\ Body([e |-> "beof", b |-> Id(f)]) /\ UNCHANGED <<dvars>>
Scraped(f) == To(f, "scraping", IF Drains THEN "drain" ELSE "close") /\ UNCHANGED <<vars, now, till, att, nb>>
Ack(f) == To(f, "ack", "done") /\ FDone([f |-> f]) /\ UNCHANGED <<now, till, att, nb>>
Cancels == canc = -1 /\ cfg.mode # "" /\ (\E f \in F : pc[f] # "done") /\ canc' = now /\ UNCHANGED <<cfg, ft, bd, tmp, viol, dvars>>
Ready(f) == pc[f] \notin {"wait", "done", "sent"} \/ (pc[f] = "wait" /\ (now >= till[f] \/ canc >= 0))
Tick == now < MaxT /\ cfg.mode # "" /\ (\A f \in F : ~Ready(f)) /\ (\E f \in F : pc[f] = "wait") /\ now' = now + Step0 /\ UNCHANGED <<vars, pc, till, att, nb>>
Over == (\A f \in F : pc[f] = "done") /\ nb[1] = 0 /\ nb' = [nb EXCEPT ![1] = 1] /\ (IF cfg.mode = "engine" THEN Ret([ok |-> FALSE, tmp |-> FALSE]) ELSE UNCHANGED vars) /\ UNCHANGED <<now, pc, till, att>>
Busy == \E f \in F : Send(f) \/ Answer(f) \/ Drain(f) \/ Close(f) \/ Judge(f) \/ Awake(f) \/ Cut(f) \/ Fin(f) \/ FinCut(f) \/ ScrapeIt(f) \/ Read(f) \/ Scraped(f) \/ Ack(f)
DNext == Boot \/ Busy \/ Cancels \/ Tick \/ Over
DSpec == DInit /\ [][DNext]_<<vars, dvars>> /\ WF_<<vars, dvars>>(Boot \/ Busy \/ Tick \/ Over)
Good == viol = {}
Finishes == <>(nb[1] = 1)
=============================================================================
