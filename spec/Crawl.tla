------------------------------- MODULE Crawl --------------------------------
(***************************************************************************)
(* The engine's design: Run, its workers, the memory queue, the semaphore, *)
(* the shared error group, and one process per URL. Each observable step   *)
(* performs the corresponding event of CrawlObs, so that the properties    *)
(* checked on the design and on recorded runs are the same formulas.       *)
(***************************************************************************)
EXTENDS CrawlObs, TLC

CONSTANTS Cfgs,      \* set of [c |-> configuration, links |-> Seq of sets]
          MaxFails,  \* injected failures
          MaxTemps,  \* temporary answers
          MayCancel

VARIABLES
  links,  \* links[u]: URLs the scrape of u returns
  main,   \* "begin", "enq", "wait", "close", "join", "done"
  wk,     \* workers: [pc, u]
  pr,     \* per URL processing: [pc, err, next]
  pend, wg, closed, \* memory queue
  seen,   \* de-duplicator
  sem,    \* free semaphore slots
  err,    \* error group: first error <<kind, id>>
  ectx,   \* error group's context cancelled
  budget  \* [f, t]: injected so far

ctl == <<links, main, wk, pr, pend, wg, closed, seen, sem, err, ectx, budget>>
all == <<vars, ctl>>

None == <<"none", 0>>
Done == ectx \/ cancd            \* the context the engine hands out is done
Ctx == <<"ctx", 0>>
Eof == <<"eof", 0>>

U == DOMAIN pr

Init ==
  /\ Init0
  /\ \E k \in Cfgs :
       /\ links = k.links
       /\ main = <<"begin", k.c>>
       /\ wk = [w \in 1..k.c.workers |-> [pc |-> "off", u |-> 0]]
       /\ pr = [u \in DOMAIN k.c.host |-> [pc |-> "no", err |-> None, next |-> {}]]
       /\ sem = k.c.conc
  /\ pend = <<>> /\ wg = 0 /\ closed = FALSE /\ seen = {} /\ err = None /\ ectx = FALSE
  /\ budget = [f |-> 0, t |-> 0]

(*------------------------------ queue -----------------------------------*)
Wake(ws) == [w \in DOMAIN ws |-> IF ws[w].pc = "asleep" THEN [ws[w] EXCEPT !.pc = "deq"] ELSE ws[w]]
SetErr(e) == IF err = None /\ e # None THEN err' = e /\ ectx' = TRUE ELSE UNCHANGED <<err, ectx>>

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SetToSeq(S \ {x})

(*------------------------------ Run -------------------------------------*)
RunBegin ==
  /\ main[1] = "begin"
  /\ Step([e |-> "begin"] @@ main[2])
  /\ main' = <<"enq", 0>>
  /\ UNCHANGED <<links, wk, pr, pend, wg, closed, seen, sem, err, ectx, budget>>

RunEnqueue ==
  /\ main[1] = "enq"
  /\ LET s == {u \in ToSet(cfg.starts) : cfg.accept[u]} IN
     IF cfg.bad THEN
       /\ main' = <<"done", 0>>
       /\ Step([e |-> "ret", nil |-> FALSE, wraps |-> <<>>, ctx |-> FALSE, open |-> 0])
       /\ UNCHANGED <<links, wk, pr, pend, wg, closed, seen, sem, err, ectx, budget>>
     ELSE IF cancd /\ s # {} THEN
       /\ main' = <<"done", 0>>
       /\ Step([e |-> "ret", nil |-> FALSE, wraps |-> <<>>, ctx |-> TRUE, open |-> 0])
       /\ UNCHANGED <<links, wk, pr, pend, wg, closed, seen, sem, err, ectx, budget>>
     ELSE
       /\ Step([e |-> "enq", g |-> 0, us |-> SetToSeq(s), ok |-> TRUE, odd |-> <<>>])
       /\ pend' = SetToSeq(s) /\ wg' = Cardinality(s) /\ seen' = s
       /\ wk' = [w \in DOMAIN wk |-> [pc |-> "deq", u |-> 0]]
       /\ main' = <<"wait", 0>>
       /\ UNCHANGED <<links, pr, closed, sem, err, ectx, budget>>

RunWait ==
  /\ main[1] = "wait" /\ wg = 0
  /\ main' = <<"join", 0>>
  /\ closed' = TRUE /\ wg' = wg - Len(pend) /\ pend' = <<>>
  /\ wk' = Wake(wk)
  /\ UNCHANGED <<vars, links, pr, seen, sem, err, ectx, budget>>

RunJoin ==
  /\ main[1] = "join"
  /\ \A w \in DOMAIN wk : wk[w].pc = "off"
  /\ \A u \in U : pr[u].pc \in {"no", "end"}
  /\ main' = <<"done", 0>>
  /\ Step([e |-> "ret", nil |-> err = None, wraps |-> IF err[1] = "fail" THEN <<err[2]>> ELSE <<>>, ctx |-> err[1] = "ctx", open |-> 0])
  /\ UNCHANGED <<links, wk, pr, pend, wg, closed, seen, sem, err, ectx, budget>>

(*----------------------------- workers ----------------------------------*)
Exit(w, ws, q, n, e) ==   \* return e; the deferred Close discards what is queued
  /\ wk' = [Wake(ws) EXCEPT ![w] = [pc |-> "off", u |-> 0]]
  /\ closed' = TRUE /\ wg' = n - Len(q) /\ pend' = <<>>
  /\ SetErr(e)

Dequeue(w) ==
  /\ wk[w].pc = "deq"
  /\ IF pend # <<>> THEN
       /\ Step([e |-> "deq", u |-> Head(pend)])
       /\ pend' = Tail(pend)
       /\ IF cfg.conc = 0
          THEN /\ pr' = [pr EXCEPT ![Head(pend)].pc = "robots"] /\ UNCHANGED wk
          ELSE /\ wk' = [wk EXCEPT ![w] = [pc |-> "acq", u |-> Head(pend)]] /\ UNCHANGED pr
       /\ UNCHANGED <<links, main, wg, closed, seen, sem, err, ectx, budget>>
     ELSE IF closed THEN
       /\ Exit(w, wk, <<>>, wg, None)
       /\ UNCHANGED <<vars, links, main, pr, seen, sem, budget>>
     ELSE IF Done THEN
       /\ Exit(w, wk, <<>>, wg, Ctx)
       /\ UNCHANGED <<vars, links, main, pr, seen, sem, budget>>
     ELSE
       /\ wk' = [wk EXCEPT ![w].pc = "asleep"]
       /\ UNCHANGED <<vars, links, main, pr, pend, wg, closed, seen, sem, err, ectx, budget>>

Acquire(w) ==
  /\ wk[w].pc = "acq"
  /\ \/ /\ sem > 0
        /\ sem' = sem - 1
        /\ pr' = [pr EXCEPT ![wk[w].u].pc = "robots"]
        /\ wk' = [wk EXCEPT ![w] = [pc |-> "deq", u |-> 0]]
        /\ UNCHANGED <<vars, links, main, pend, wg, closed, seen, err, ectx, budget>>
     \/ /\ Done   \* the URL is given back before leaving
        /\ Step([e |-> "qdone", u |-> wk[w].u])
        /\ Exit(w, wk, pend, wg - 1, Ctx)
        /\ UNCHANGED <<links, main, pr, seen, sem, budget>>

(*----------------------------- one URL ----------------------------------*)
To(u, pc) == pr' = [pr EXCEPT ![u].pc = pc]
FailP(u, e) == pr' = [pr EXCEPT ![u].pc = "done", ![u].err = e]
Quiet == UNCHANGED <<links, main, wk, pend, wg, closed, seen, sem, err, ectx>>

Robots(u) ==
  /\ pr[u].pc = "robots"
  /\ IF cfg.impolite THEN To(u, "limit") /\ UNCHANGED vars
     ELSE IF rob[cfg.host[u]] = "ok"
          THEN To(u, IF cfg.allow[u] THEN "limit" ELSE "done") /\ UNCHANGED vars
          ELSE To(u, "rwait") /\ Step([e |-> "rreq", h |-> cfg.host[u], g |-> u, cx |-> Done, path |-> "/robots.txt"])
  /\ Quiet /\ UNCHANGED budget

NextFail == [budget EXCEPT !.f = @ + 1]

RobotsRet(u) ==
  /\ pr[u].pc = "rwait"
  /\ \/ /\ To(u, "robots2") /\ UNCHANGED budget
        /\ Step([e |-> "rresp", h |-> cfg.host[u], g |-> u, kind |-> "ok", f |-> 0])
     \/ /\ Done /\ FailP(u, Ctx) /\ UNCHANGED budget
        /\ Step([e |-> "rresp", h |-> cfg.host[u], g |-> u, kind |-> "ctx", f |-> 0])
     \/ /\ budget.f < MaxFails /\ budget' = NextFail /\ FailP(u, <<"fail", budget'.f>>)
        /\ Step([e |-> "rresp", h |-> cfg.host[u], g |-> u, kind |-> "fail", f |-> budget'.f])
  /\ Quiet

Robots2(u) ==
  /\ pr[u].pc = "robots2"
  /\ To(u, IF cfg.allow[u] THEN "limit" ELSE "done")
  /\ UNCHANGED vars /\ Quiet /\ UNCHANGED budget

LimitP(u) ==
  /\ pr[u].pc = "limit"
  /\ IF cfg.lim THEN To(u, "lwait") /\ Step([e |-> "lcall", u |-> u, g |-> u, cx |-> Done])
     ELSE To(u, "fetch") /\ UNCHANGED vars
  /\ Quiet /\ UNCHANGED budget

LimitPRet(u) ==
  /\ pr[u].pc = "lwait"
  /\ \/ /\ To(u, "fetch") /\ UNCHANGED budget
        /\ Step([e |-> "lret", u |-> u, kind |-> "ok", f |-> 0])
     \/ /\ Done /\ FailP(u, Ctx) /\ UNCHANGED budget
        /\ Step([e |-> "lret", u |-> u, kind |-> "ctx", f |-> 0])
     \/ /\ budget.f < MaxFails /\ budget' = NextFail /\ FailP(u, <<"fail", budget'.f>>)
        /\ Step([e |-> "lret", u |-> u, kind |-> "fail", f |-> budget'.f])
  /\ Quiet

Fetch(u) ==
  /\ pr[u].pc = "fetch"
  /\ To(u, "fwait") /\ Step([e |-> "freq", u |-> u, g |-> u, cx |-> Done])
  /\ Quiet /\ UNCHANGED budget

FetchRet(u) ==
  /\ pr[u].pc = "fwait"
  /\ \/ /\ To(u, "scrape") /\ UNCHANGED budget
        /\ Step([e |-> "fresp", u |-> u, kind |-> "page", f |-> 0])
     \/ /\ budget.t < MaxTemps /\ budget' = [budget EXCEPT !.t = @ + 1, !.f = @ + 1]
        /\ IF att[u] >= cfg.att THEN FailP(u, <<"fail", budget'.f>>) ELSE To(u, "backoff")
        /\ Step([e |-> "fresp", u |-> u, kind |-> "temp", f |-> budget'.f])
     \/ /\ Done /\ FailP(u, Ctx) /\ UNCHANGED budget
        /\ Step([e |-> "fresp", u |-> u, kind |-> "ctx", f |-> 0])
     \/ /\ budget.f < MaxFails /\ budget' = NextFail /\ FailP(u, <<"fail", budget'.f>>)
        /\ Step([e |-> "fresp", u |-> u, kind |-> "fail", f |-> budget'.f])
  /\ Quiet

Gone(u) ==   \* a 404 page
  /\ pr[u].pc = "fwait" /\ cfg.gone /\ To(u, "done") /\ UNCHANGED budget
  /\ Step([e |-> "fresp", u |-> u, kind |-> "gone", f |-> 0])
  /\ Quiet

Backoff(u) ==
  /\ pr[u].pc = "backoff"
  /\ \/ To(u, "fetch")
     \/ Done /\ FailP(u, Ctx)
  /\ UNCHANGED vars /\ Quiet /\ UNCHANGED budget

Scrape(u) ==
  /\ pr[u].pc = "scrape"
  /\ To(u, "swait") /\ Step([e |-> "scall", u |-> u, g |-> u, cx |-> Done])
  /\ Quiet /\ UNCHANGED budget

ScrapePRet(u) ==
  /\ pr[u].pc = "swait"
  /\ \/ /\ pr' = [pr EXCEPT ![u].pc = "dedupe", ![u].next = Accepted(links[u])] /\ UNCHANGED budget
        /\ Step([e |-> "sret", u |-> u, kind |-> "ok", next |-> SetToSeq(links[u]), f |-> 0])
     \/ /\ budget.f < MaxFails /\ budget' = NextFail /\ FailP(u, <<"fail", budget'.f>>)
        /\ Step([e |-> "sret", u |-> u, kind |-> "fail", next |-> <<>>, f |-> budget'.f])
  /\ Quiet

Dedupe(u) ==
  /\ pr[u].pc = "dedupe"
  /\ pr' = [pr EXCEPT ![u].pc = "enq", ![u].next = @ \ seen]
  /\ seen' = seen \cup pr[u].next
  /\ UNCHANGED <<vars, links, main, wk, pend, wg, closed, sem, err, ectx, budget>>

EnqueueP(u) ==
  /\ pr[u].pc = "enq"
  /\ LET s == pr[u].next IN
     IF s = {} THEN
       /\ To(u, "done") /\ UNCHANGED vars /\ Quiet
     ELSE IF Done THEN FailP(u, Ctx) /\ UNCHANGED vars /\ Quiet
     ELSE IF closed THEN FailP(u, Eof) /\ UNCHANGED vars /\ Quiet
     ELSE /\ To(u, "done")
          /\ Step([e |-> "enq", g |-> 0, us |-> SetToSeq(s), ok |-> TRUE, odd |-> <<>>])
          /\ pend' = pend \o SetToSeq(s) /\ wg' = wg + Cardinality(s) /\ wk' = Wake(wk)
          /\ UNCHANGED <<links, main, closed, seen, sem, err, ectx>>
  /\ UNCHANGED budget

Ack(u) ==   \* deferred Done, before the process returns
  /\ pr[u].pc = "done"
  /\ To(u, "fin") /\ wg' = wg - 1
  /\ Step([e |-> "qdone", u |-> u])
  /\ UNCHANGED <<links, main, wk, pend, closed, seen, sem, err, ectx, budget>>

Fin(u) ==   \* release the slot, report to the error group
  /\ pr[u].pc = "fin"
  /\ To(u, "end")
  /\ sem' = IF cfg.conc > 0 THEN sem + 1 ELSE sem
  /\ SetErr(pr[u].err)
  /\ UNCHANGED <<vars, links, main, wk, pend, wg, closed, seen, budget>>

(*--------------------------- environment --------------------------------*)
CancelP ==
  /\ MayCancel /\ ~cancd /\ phase = "run"
  /\ Step([e |-> "cancel"])
  /\ UNCHANGED ctl

Inner(u) == Robots(u) \/ Robots2(u) \/ LimitP(u) \/ Fetch(u) \/ Scrape(u) \/ Dedupe(u) \/ EnqueueP(u) \/ Ack(u) \/ Fin(u)
EngineStep == RunBegin \/ RunEnqueue \/ RunWait \/ RunJoin
          \/ (\E w \in DOMAIN wk : Dequeue(w) \/ Acquire(w))
          \/ (\E u \in U : Inner(u))
Env == \E u \in U : RobotsRet(u) \/ LimitPRet(u) \/ FetchRet(u) \/ Gone(u) \/ Backoff(u) \/ ScrapePRet(u)

ProbeP ==
  /\ phase = "run" /\ ~settled /\ (hard # {} \/ cancd)
  /\ ~ENABLED EngineStep
  /\ Step([e |-> "probe", dead |-> (open # {} \/ rq # {}) => Done])
  /\ UNCHANGED ctl

Next == EngineStep \/ Env \/ CancelP \/ ProbeP
Spec == Init /\ [][Next]_all
             /\ WF_all(EngineStep)
             /\ \A u \in 1..4 : WF_all(u \in U /\ (RobotsRet(u) \/ LimitPRet(u) \/ FetchRet(u) \/ Gone(u) \/ Backoff(u) \/ ScrapePRet(u)))

(*--------------------------- properties ---------------------------------*)
NoViolation == viol = {}
QueueAccounting == wg = Len(pend) + Cardinality({w \in DOMAIN wk : wk[w].pc = "acq"}) + Cardinality({u \in U : pr[u].pc \notin {"no", "fin", "end"}})
SemaphoreSound == (phase # "idle" /\ cfg.conc > 0) => sem + Cardinality({u \in U : pr[u].pc \notin {"no", "end"}}) = cfg.conc
Returns == <>(phase = "ret")       \* C03: Run returns in every fair behaviour

(*------------------------- configurations -------------------------------*)
C(n, workers, conc, impolite, lim, bad, nh, att0, gone) ==
  [host |-> [u \in 1..n |-> IF nh = 1 THEN 1 ELSE 1 + (u % 2)], nh |-> nh,
   accept |-> [u \in 1..n |-> u # 4], allow |-> [u \in 1..n |-> impolite \/ u # 3],
   workers |-> workers, conc |-> conc, impolite |-> impolite, lim |-> lim, bad |-> bad,
   qw |-> TRUE, att |-> att0, starts |-> <<1>>, gone |-> gone]
Diamond == <<{2, 3}, {3, 1}, {2}>>
Reject == <<{2, 3, 4}, {4, 1}, {1}, {2}>>
QuickCfgs == {[c |-> C(3, w, k, TRUE, FALSE, FALSE, 1, 1, FALSE), links |-> Diamond] : w \in 1..2, k \in 0..2}
        \cup {[c |-> C(4, 2, 1, FALSE, FALSE, FALSE, 2, 1, FALSE), links |-> Reject]}
        \cup {[c |-> C(3, 1, 1, TRUE, FALSE, TRUE, 1, 1, FALSE), links |-> Diamond]}
FullCfgs == {[c |-> C(3, w, k, i, li, FALSE, h, 2, TRUE), links |-> Diamond] : w \in 1..3, k \in 0..2, i \in BOOLEAN, li \in BOOLEAN, h \in 1..2}
       \cup {[c |-> C(4, 2, k, FALSE, TRUE, FALSE, 2, 2, TRUE), links |-> Reject] : k \in 0..2}
=============================================================================
