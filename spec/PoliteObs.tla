----------------------------- MODULE PoliteObs ------------------------------
(***************************************************************************)
(* Politeness (C08) and rate limits (C09) over timed events; t is in       *)
(* milliseconds of virtual time. Components answer in no time, so all time *)
(* that passes is waiting done by the code.                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES
  cfg,
  firsts,  \* per host: sequence of <<url, t>> of first requests
  asked,   \* per host: time of the first robots.txt request (-1: none)
  deqd,    \* per url: time it was dequeued (-1: not)
  got,     \* urls requested
  lims,    \* per call of the limiter: "no", "wait", "ok", "err"
  lat,     \* per call: time it was made
  adm,     \* times at which covered urls were admitted
  canc,    \* time of cancellation (-1: none)
  stop,    \* per call: time its own context was cancelled (-1: none)
  viol
vars == <<cfg, firsts, asked, deqd, got, lims, lat, adm, canc, stop, viol>>

V(p, c, m) == IF c THEN {} ELSE {<<p, m>>}

Init0 == /\ cfg = [nh |-> 0] /\ firsts = <<>> /\ asked = <<>> /\ deqd = <<>> /\ got = {} /\ lims = <<>> /\ lat = <<>>
         /\ adm = <<>> /\ canc = -1 /\ stop = <<>> /\ viol = {}

Begin(c) ==
  /\ cfg' = c
  /\ firsts' = [h \in 1..c.nh |-> <<>>]
  /\ asked' = [h \in 1..c.nh |-> -1]
  /\ deqd' = [u \in DOMAIN c.cover |-> -1]
  /\ got' = {}
  /\ lims' = [u \in DOMAIN c.cover |-> "no"]
  /\ lat' = [u \in DOMAIN c.cover |-> -1]
  /\ stop' = [u \in DOMAIN c.cover |-> -1]
  /\ adm' = <<>> /\ canc' = -1 /\ viol' = {}

Deq(e) ==
  /\ deqd' = [deqd EXCEPT ![e.u] = e.t]
  /\ UNCHANGED <<cfg, firsts, asked, got, lims, lat, adm, canc, stop, viol>>

RobotsReq(e) ==
  /\ asked' = IF asked[e.h] = -1 THEN [asked EXCEPT ![e.h] = e.t] ELSE asked
  /\ UNCHANGED <<cfg, firsts, deqd, got, lims, lat, adm, canc, stop, viol>>

Delay(u) == IF cfg.impolite THEN 0 ELSE cfg.delay[cfg.host[u]]

(* A window that ends now admits no more than burst plus rate times length. *)
RateOK(ts) == LET k == Len(ts) IN
  \A i \in 1..k : (k - i + 1) * 1000 <= cfg.n * 1000 + cfg.n * (ts[k] - ts[i] + 1)

LimitCall(e) ==
  /\ lims' = [lims EXCEPT ![e.c] = "wait"]
  /\ lat' = [lat EXCEPT ![e.c] = e.t]
  /\ viol' = viol \cup V("C09", lims[e.c] = "no", "limiter consulted twice for a URL")
  /\ UNCHANGED <<cfg, firsts, asked, deqd, got, adm, canc, stop>>

LimitRet(e) ==
  LET ts == IF e.kind = "ok" /\ cfg.cover[e.u] THEN Append(adm, e.t) ELSE adm IN
  /\ lims' = [lims EXCEPT ![e.c] = IF e.kind = "ok" THEN "ok" ELSE "err"]
  /\ adm' = ts
  /\ viol' = viol
       \cup V("C09", ts # adm => RateOK(ts), "more URLs admitted than the rate allows")
       \cup V("C09", cfg.cover[e.u] \/ e.t = lat[e.c], "limiter delayed a URL it does not cover")
       \cup V("C09", cfg.cover[e.u] \/ e.kind = "ok" \/ canc >= 0, "limiter refused a URL it does not cover")
       \cup V("C09", stop[e.c] >= 0 => e.t <= stop[e.c] \/ e.t = lat[e.c], "cancelled limiter kept waiting")
       \cup V("C09", (cfg.mode = "engine" /\ canc >= 0) => e.t = canc \/ lat[e.c] >= canc, "cancelled limiter kept waiting")
  /\ UNCHANGED <<cfg, firsts, asked, deqd, got, lat, canc, stop>>

LimitStop(e) ==
  /\ stop' = [stop EXCEPT ![e.c] = e.t]
  /\ UNCHANGED <<cfg, firsts, asked, deqd, got, lims, lat, adm, canc, viol>>

FetchReq(e) ==
  LET u == e.u h == cfg.host[u] IN
  IF u \in got THEN UNCHANGED vars   \* a retry
  ELSE
  /\ got' = got \cup {u}
  /\ firsts' = [firsts EXCEPT ![h] = Append(@, e.t)]
  /\ viol' = viol
       \cup V("C08", canc >= 0 \/ \A i \in DOMAIN firsts[h] : e.t - firsts[h][i] >= Delay(u), "requests to a host closer than its crawl delay")
       \cup V("C08", canc >= 0 \/ Delay(u) = 0 \/ (asked[h] >= 0 /\ e.t - asked[h] >= Delay(u)), "first request to a host sooner than its crawl delay after robots.txt")
       \cup V("C08", (Delay(u) = 0 /\ ~cfg.lim /\ cfg.conc = 0 /\ deqd[u] >= 0) => e.t = deqd[u], "request delayed although its host has no crawl delay")
       \cup V("C09", cfg.lim => lims[u] = "ok" \/ (canc >= 0 /\ lims[u] # "no"), "request sent before the limiter admitted it")
       \cup V("C09", (cfg.lim /\ lims[u] = "ok" /\ Delay(u) = 0) => e.t >= lat[u], "time ran backwards")
  /\ UNCHANGED <<cfg, asked, deqd, lims, lat, adm, canc, stop>>

Cancel(e) ==
  /\ canc' = e.t
  /\ UNCHANGED <<cfg, firsts, asked, deqd, got, lims, lat, adm, stop, viol>>

Ret(e) ==
  /\ viol' = viol
       \cup V("C08", (canc >= 0 /\ ~cfg.impolite) => e.t = canc, "waiting for the crawl delay went on after cancellation")
       \cup V("C09", (canc >= 0 /\ cfg.lim) => e.t = canc, "waiting for the limiter went on after cancellation")
  /\ UNCHANGED <<cfg, firsts, asked, deqd, got, lims, lat, adm, canc, stop>>

(* Nothing happens any more although the run is not over. *)
Stuck ==
  /\ viol' = viol \cup (IF \E c \in DOMAIN lims : lims[c] = "wait" THEN {<<"C09", "a URL waits for the limiter for ever">>}
                        ELSE IF cfg.impolite THEN {} ELSE {<<"C08", "a URL waits for ever">>})
  /\ UNCHANGED <<cfg, firsts, asked, deqd, got, lims, lat, adm, canc, stop>>

Step(e) ==
  CASE e.e = "begin" -> Begin(e)
    [] e.e = "deq" -> Deq(e)
    [] e.e = "rreq" -> RobotsReq(e)
    [] e.e = "lcall" -> LimitCall(e)
    [] e.e = "lret" -> LimitRet(e)
    [] e.e = "lstop" -> LimitStop(e)
    [] e.e = "freq" -> FetchReq(e)
    [] e.e = "cancel" -> Cancel(e)
    [] e.e = "ret" -> Ret(e)
    [] e.e \in {"stuck", "hang"} -> Stuck
    [] OTHER -> UNCHANGED vars
=============================================================================
