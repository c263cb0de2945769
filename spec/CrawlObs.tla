------------------------------ MODULE CrawlObs ------------------------------
(***************************************************************************)
(* The contract of a crawl (properties C01-C07) as a transition system     *)
(* over the events at the boundary between the engine and the components   *)
(* it is given: client, robots.txt transport, limiter, matcher, queue,     *)
(* de-duplicator, scraper, and the call of Run itself.                     *)
(*                                                                         *)
(* Step(ev) is total: it updates the abstract state for any event and adds *)
(* to viol the properties the event breaks. The design model (Crawl.tla)   *)
(* drives it with the events its engine produces and proves viol = {} for  *)
(* every interleaving; the trace model (CrawlTrace.tla) drives it with the *)
(* events recorded from the real engine.                                   *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

VARIABLES
  cfg,      \* configuration of the crawl (record)
  phase,    \* "idle", "run", "ret"
  disc,     \* discovered URLs: start URLs and what scrapes returned
  queued,   \* URLs accepted by the queue
  offer,    \* Enqueue calls that run: set of <<goroutine, URLs, settled when called>>
  act,      \* URLs in process
  rq,       \* outstanding robots requests: set of <<goroutine, host>>
  pg,       \* in-process URLs with the goroutine last seen working on them
  open,     \* outstanding component calls that concern a URL: set of <<kind, url>>
  fst,      \* per URL: "no", "run", "temp", "page", "gone", "fail", "ctx"
  att,      \* per URL: requests made
  scr,      \* URLs handed to the scraper
  scrd,     \* URLs whose scrape has ended well
  rob,      \* per host: "none", "ok", "fail"
  fails,    \* failures of URL processing so far
  soft,     \* temporary failures: <<url, id>>
  hard,     \* failures that have certainly ended the processing of their URL
  cancd,    \* the caller has cancelled
  settled,  \* a failure or cancellation has had the time to propagate
  viol      \* violated properties with a message

vars == <<cfg, phase, disc, queued, offer, act, rq, pg, open, fst, att, scr, scrd, rob, fails, soft, hard, cancd, settled, viol>>

URLs == 1..Len(cfg.host)
Hosts == 1..cfg.nh
ToSet(s) == {s[i] : i \in DOMAIN s}
V(p, c, m) == IF c THEN {} ELSE {<<p, m>>}
Accepted(us) == {u \in us : u \in URLs /\ cfg.accept[u]}

Init0 ==
  /\ cfg = [host |-> <<>>, nh |-> 0]
  /\ phase = "idle" /\ disc = {} /\ queued = {} /\ offer = {} /\ act = {} /\ rq = {} /\ pg = {} /\ open = {}
  /\ fst = <<>> /\ att = <<>> /\ scr = {} /\ scrd = {} /\ rob = <<>> /\ fails = {} /\ soft = {} /\ hard = {}
  /\ cancd = FALSE /\ settled = FALSE /\ viol = {}

Begin(c) ==
  /\ cfg' = c
  /\ phase' = "run"
  /\ disc' = IF c.bad THEN {} ELSE {u \in ToSet(c.starts) : c.accept[u]}
  /\ queued' = {} /\ offer' = {} /\ act' = {} /\ rq' = {} /\ pg' = {} /\ open' = {}
  /\ fst' = [u \in DOMAIN c.host |-> "no"]
  /\ att' = [u \in DOMAIN c.host |-> 0]
  /\ scr' = {} /\ scrd' = {}
  /\ rob' = [h \in 1..c.nh |-> "none"]
  /\ fails' = {} /\ soft' = {} /\ hard' = {} /\ cancd' = FALSE /\ settled' = FALSE /\ viol' = {}

Bad == cfg.bad   \* some start URL is invalid

(* Checks common to every component call. *)
Call(cx) == V("C03", phase = "run", "component called after Run returned")
       \cup V("C04", settled => cx, "component called with a live context after the crawl was stopped")

(* The number of URLs in process if u (or 0) becomes so. *)
InProcess(u, rqs) ==
  Cardinality(act \cup (IF u = 0 THEN {} ELSE {u}))
  + Cardinality({x \in rqs : \A y \in pg : y[2] \in act => y[1] # x[1]})
Limit(u, rqs) == V("C05", cfg.conc > 0 => InProcess(u, rqs) <= cfg.conc, "more URLs in process than the concurrency limit")

Touch(u, g) == /\ act' = act \cup {u}
               /\ pg' = {y \in pg : y[2] # u} \cup {<<g, u>>}

(* Without a wrapped queue there is no acknowledgement to observe: a URL   *)
(* then counts as in process during component calls only.                  *)
Untouch(u) == IF cfg.qw THEN UNCHANGED <<act, pg>>
              ELSE /\ act' = act \ {u} /\ pg' = {y \in pg : y[2] # u}

Failed(e) ==
  /\ fails' = IF e.kind = "fail" THEN fails \cup {e.f} ELSE fails
  /\ hard' = IF e.kind = "fail" THEN hard \cup {e.f} ELSE hard
  /\ soft' = soft

Scope(u) == V("C06", ~Bad, "invalid start URL, yet a URL was processed")
       \cup V("C06", u \in URLs, "unknown URL processed")
       \cup V("C06", u \in URLs => cfg.accept[u], "URL rejected by the matcher was processed")

Match(e) ==
  /\ viol' = viol \cup V("C06", e.norm, "matcher was given a URL that is not normalized")
                  \cup V("C03", phase = "run", "matcher called after Run returned")
  /\ UNCHANGED <<cfg, phase, disc, queued, offer, act, rq, pg, open, fst, att, scr, scrd, rob, fails, soft, hard, cancd, settled>>

EnqCall(e) ==
  /\ offer' = offer \cup {<<e.g, ToSet(e.us), settled>>}
  /\ UNCHANGED <<cfg, phase, disc, queued, act, rq, pg, open, fst, att, scr, scrd, rob, fails, soft, hard, cancd, settled, viol>>

Enq(e) ==
  LET us == ToSet(e.us)
      mine == {o \in offer : o[1] = e.g}
      late == IF mine = {} THEN settled ELSE \E o \in mine : o[3] IN
  /\ offer' = offer \ mine
  /\ queued' = IF e.ok THEN queued \cup us ELSE queued
  /\ viol' = viol
       \cup (IF e.ok THEN V("C06", us \subseteq URLs /\ Accepted(us) = us, "URL rejected by the matcher was queued")
                     \cup V("C06", us # {} => ~Bad, "invalid start URL, yet URLs were queued")
                     \cup V("C06", e.odd = <<>>, "URL queued without normalization")
                     \cup V("C04", us \subseteq disc \/ Bad, "URLs queued that no successful scrape returned")
                     \cup V("C04", late => us = {}, "newly discovered URLs queued after the crawl was stopped")
             ELSE {})
  /\ UNCHANGED <<cfg, phase, disc, act, rq, pg, open, fst, att, scr, scrd, rob, fails, soft, hard, cancd, settled>>

Deq(e) ==
  /\ viol' = viol \cup V("C06", e.u \in queued \cup UNION {o[2] : o \in offer}, "URL delivered that was not queued")
  /\ UNCHANGED <<cfg, phase, disc, queued, offer, act, rq, pg, open, fst, att, scr, scrd, rob, fails, soft, hard, cancd, settled>>

QDone(e) ==
  /\ act' = act \ {e.u} /\ pg' = {y \in pg : y[2] # e.u}
  /\ hard' = hard \cup {x[2] : x \in {y \in soft : y[1] = e.u /\ y[2] \in fails}}
  /\ viol' = viol
  /\ UNCHANGED <<cfg, phase, disc, queued, offer, rq, open, fst, att, scr, scrd, rob, fails, soft, cancd, settled>>

RobotsReq(e) ==
  LET rqs == rq \cup {<<e.g, e.h>>} IN
  /\ rq' = rqs
  /\ viol' = viol \cup Call(e.cx)
       \cup V("C07", ~cfg.impolite, "robots.txt requested by an impolite crawl")
       \cup V("C07", e.path = "/robots.txt", "robots.txt requested at another path")
       \cup V("C06", ~Bad, "invalid start URL, yet robots.txt was requested")
       \cup Limit(0, rqs)
  /\ UNCHANGED <<cfg, phase, disc, queued, offer, act, pg, open, fst, att, scr, scrd, rob, fails, soft, hard, cancd, settled>>

RobotsResp(e) ==
  /\ rq' = {x \in rq : x # <<e.g, e.h>>}
  /\ rob' = IF e.h \in Hosts /\ e.kind = "ok" THEN [rob EXCEPT ![e.h] = "ok"] ELSE rob
  /\ Failed(e)
  /\ viol' = viol
  /\ UNCHANGED <<cfg, phase, disc, queued, offer, act, pg, open, fst, att, scr, scrd, cancd, settled>>

LimitCall(e) ==
  /\ Touch(e.u, e.g)
  /\ open' = open \cup {<<"l", e.u>>}
  /\ viol' = viol \cup Call(e.cx) \cup Scope(e.u) \cup Limit(e.u, rq)
  /\ UNCHANGED <<cfg, phase, disc, queued, offer, rq, fst, att, scr, scrd, rob, fails, soft, hard, cancd, settled>>

LimitRet(e) ==
  /\ open' = open \ {<<"l", e.u>>}
  /\ Failed(e)
  /\ viol' = viol
  /\ Untouch(e.u)
  /\ UNCHANGED <<cfg, phase, disc, queued, offer, rq, fst, att, scr, scrd, rob, cancd, settled>>

FetchReq(e) ==
  LET u == e.u IN
  IF u \notin URLs
  THEN /\ viol' = viol \cup Call(e.cx) \cup Scope(u)
       /\ UNCHANGED <<cfg, phase, disc, queued, offer, act, rq, pg, open, fst, att, scr, scrd, rob, fails, soft, hard, cancd, settled>>
  ELSE
  /\ Touch(u, e.g)
  /\ open' = open \cup {<<"f", u>>}
  /\ fst' = [fst EXCEPT ![u] = "run"]
  /\ att' = [att EXCEPT ![u] = @ + 1]
  /\ viol' = viol \cup Call(e.cx) \cup Scope(u) \cup Limit(u, rq)
       \cup V("C01", fst[u] \in {"no", "temp"} /\ u \notin scr, "second fetch started for a URL")
       \cup V("C07", cfg.impolite \/ rob[cfg.host[u]] = "ok", "page requested before the host's robots.txt was obtained")
       \cup V("C07", cfg.impolite \/ cfg.allow[u], "page requested that robots.txt disallows")
  /\ UNCHANGED <<cfg, phase, disc, queued, offer, rq, scr, scrd, rob, fails, soft, hard, cancd, settled>>

FetchResp(e) ==
  LET u == e.u
      last == e.kind = "temp" /\ att[u] >= cfg.att
      k == IF last THEN "fail" ELSE e.kind IN
  IF u \notin URLs THEN UNCHANGED vars
  ELSE
  /\ open' = open \ {<<"f", u>>}
  /\ fst' = [fst EXCEPT ![u] = k]
  \* the last temporary answer is a failure too, but the fetcher may wait before it reports it
  /\ fails' = IF k = "fail" THEN fails \cup {e.f} ELSE fails
  /\ hard' = IF e.kind = "fail" THEN hard \cup {e.f} ELSE hard
  /\ soft' = IF e.kind = "temp" THEN soft \cup {<<u, e.f>>} ELSE soft
  /\ viol' = viol
  /\ Untouch(u)
  /\ UNCHANGED <<cfg, phase, disc, queued, offer, rq, att, scr, scrd, rob, cancd, settled>>

ScrapeCall(e) ==
  /\ Touch(e.u, e.g)
  /\ open' = open \cup {<<"s", e.u>>}
  /\ scr' = scr \cup {e.u}
  /\ viol' = viol \cup Call(e.cx) \cup Scope(e.u) \cup Limit(e.u, rq)
       \cup V("C01", e.u \notin scr, "page handed to the scraper twice")
       \cup V("C02", e.u \in URLs => fst[e.u] = "page", "scraper called without a page")
  /\ UNCHANGED <<cfg, phase, disc, queued, offer, rq, fst, att, scrd, rob, fails, soft, hard, cancd, settled>>

ScrapeRet(e) ==
  /\ open' = open \ {<<"s", e.u>>}
  /\ scrd' = IF e.kind = "ok" THEN scrd \cup {e.u} ELSE scrd
  /\ disc' = disc \cup (IF e.kind = "ok" THEN Accepted(ToSet(e.next)) ELSE {})
  /\ Failed(e)
  /\ viol' = viol
  /\ Untouch(e.u)
  /\ UNCHANGED <<cfg, phase, queued, offer, rq, fst, att, scr, rob, cancd, settled>>

DedupeRet(e) ==
  /\ Failed(e)
  /\ viol' = viol \cup V("C03", phase = "run", "de-duplicator called after Run returned")
  /\ UNCHANGED <<cfg, phase, disc, queued, offer, act, rq, pg, open, fst, att, scr, scrd, rob, cancd, settled>>

Cancel ==
  /\ cancd' = TRUE
  /\ viol' = viol
  /\ UNCHANGED <<cfg, phase, disc, queued, offer, act, rq, pg, open, fst, att, scr, scrd, rob, fails, soft, hard, settled>>

(* Everything inside the engine that could run has run; only components    *)
(* and timers are left.                                                    *)
Probe(e) ==
  /\ settled' = (settled \/ hard # {} \/ cancd)
  /\ viol' = viol
       \cup V("C04", (hard # {} \/ cancd) => e.dead, "a component still has a live context after a failure or cancellation")
  /\ UNCHANGED <<cfg, phase, disc, queued, offer, act, rq, pg, open, fst, att, scr, scrd, rob, fails, soft, hard, cancd>>

Visited(u) == \/ ~cfg.impolite /\ ~cfg.allow[u]
              \/ fst[u] = "gone"
              \/ fst[u] = "page" /\ u \in scrd

Causes == fails \cup {x[2] : x \in soft}

Ret(e) ==
  /\ phase' = "ret"
  /\ viol' = viol
       \cup V("C03", e.open = 0 /\ open = {} /\ rq = {}, "Run returned while a component call was running")
       \cup V("C06", Bad => ~e.nil, "invalid start URL accepted")
       \cup V("C04", (fails # {} /\ ~Bad) => ~e.nil, "Run returned nil although processing a URL failed")
       \cup V("C04", (fails # {} /\ ~e.nil /\ ~cancd) => ToSet(e.wraps) \cap Causes # {}, "Run's error does not wrap the failure")
       \cup V("C04", (cancd /\ ~Bad /\ ~e.nil /\ ToSet(e.wraps) \cap Causes = {}) => e.ctx, "Run's error does not wrap the context's error")
       \cup V("C04", (fails = {} /\ soft = {} /\ ~cancd /\ ~Bad) => e.nil, "Run returned an error although nothing failed")
       \cup V("C02", (e.nil /\ fails = {} /\ ~Bad) => \A u \in disc : Visited(u), "Run returned nil before every discovered URL was visited")
  /\ UNCHANGED <<cfg, disc, queued, offer, act, rq, pg, open, fst, att, scr, scrd, rob, fails, soft, hard, cancd, settled>>

Flag(p, m) ==
  /\ viol' = viol \cup {<<p, m>>}
  /\ UNCHANGED <<cfg, phase, disc, queued, offer, act, rq, pg, open, fst, att, scr, scrd, rob, fails, soft, hard, cancd, settled>>

Step(e) ==
  CASE e.e = "begin" -> Begin(e)
    [] e.e = "match" -> Match(e)
    [] e.e = "enqc" -> EnqCall(e)
    [] e.e = "enq" -> Enq(e)
    [] e.e = "deq" -> Deq(e)
    [] e.e = "qdone" -> QDone(e)
    [] e.e = "rreq" -> RobotsReq(e)
    [] e.e = "rresp" -> RobotsResp(e)
    [] e.e = "lcall" -> LimitCall(e)
    [] e.e = "lret" -> LimitRet(e)
    [] e.e = "freq" -> FetchReq(e)
    [] e.e = "fresp" -> FetchResp(e)
    [] e.e = "scall" -> ScrapeCall(e)
    [] e.e = "sret" -> ScrapeRet(e)
    [] e.e = "dret" -> DedupeRet(e)
    [] e.e = "cancel" -> Cancel
    [] e.e = "probe" -> Probe(e)
    [] e.e = "ret" -> Ret(e)
    [] e.e = "hang" -> Flag("C03", "Run does not return")
    [] e.e = "leak" -> Flag("C03", "goroutines are left after Run returned")
    [] e.e = "end" -> UNCHANGED vars
=============================================================================
