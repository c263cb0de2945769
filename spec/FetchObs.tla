------------------------------ MODULE FetchObs ------------------------------
(***************************************************************************)
(* C13: which requests a fetch makes, when, and what it results in.        *)
(* C14: what becomes of the bodies of the responses it gets.               *)
(* Times are in tenths of milliseconds of virtual time.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,     \* mode, max, minb, maxb, n
  ft,      \* per fetch: [n requests, open, kind, temp, status, at, over]
  bd,      \* per body: [f, eof, err, closed, due]
  canc,    \* time of cancellation or -1
  tmp,     \* temporary scraper / de-duplicator failure injected: "" or what
  viol
vars == <<cfg, ft, bd, canc, tmp, viol>>
V(p, c, m) == IF c THEN {} ELSE {<<p, m>>}
Fresh == [n |-> 0, open |-> FALSE, kind |-> "", temp |-> FALSE, status |-> 0, at |-> 0, page |-> 0]

Init0 == cfg = [mode |-> ""] /\ ft = <<>> /\ bd = <<>> /\ canc = -1 /\ tmp = "" /\ viol = {}
Begin(e) == cfg' = e /\ ft' = [f \in 1..e.n |-> Fresh] /\ bd' = <<>> /\ canc' = -1 /\ tmp' = "" /\ viol' = {}

Min(a, b) == IF a < b THEN a ELSE b
(* the wait after the n-th request *)
Wait(n) == IF n > 2000 THEN cfg.maxb ELSE Min(n * n * cfg.minb, cfg.maxb)
CutOff(s) == canc >= 0 /\ canc < s.at + Wait(s.n)   \* cancelled before the wait was over

Settled(b) == (b.eof \/ b.err) /\ b.closed
Leak(f) == \E i \in DOMAIN bd : bd[i].f = f /\ ~Settled(bd[i])
LeakBut(f, k) == \E i \in DOMAIN bd \ {k} : bd[i].f = f /\ ~Settled(bd[i])

Req(e) ==
  IF e.f = 0 THEN viol' = viol \cup {<<"C13", "request is not for a given URL">>} /\ UNCHANGED <<cfg, ft, bd, canc, tmp>>
  ELSE LET s == ft[e.f] IN
  /\ ft' = [ft EXCEPT ![e.f] = [@ EXCEPT !.n = @ + 1, !.open = TRUE]]
  /\ viol' = viol
       \cup V("C13", e.ok, "request is not a GET of the URL with the configured headers")
       \cup V("C13", s.n > 0 => s.temp, "request repeated although the failure was not temporary")
       \cup V("C13", s.n < cfg.max, "more requests than MaxAttempts")
       \cup V("C13", (s.n > 0 /\ s.temp) => e.t >= s.at + Wait(s.n), "request repeated before its backoff")
       \cup V("C13", (s.n > 0 /\ s.temp /\ canc < 0) => e.t <= s.at + Wait(s.n), "request repeated later than its backoff")
       \cup V("C13", s.n > 0 => ~CutOff(s), "request repeated although cancelled during the wait")
       \cup V("C14", ~Leak(e.f), "response body not read and closed before the retry")
  /\ UNCHANGED <<cfg, bd, canc, tmp>>

Ans(e) ==
  /\ ft' = [ft EXCEPT ![e.f] = [@ EXCEPT !.open = FALSE, !.kind = e.kind, !.temp = e.temp, !.status = e.status, !.at = e.t, !.page = IF e.kind = "ok" THEN e.b ELSE 0]]
  /\ bd' = IF e.b = 0 THEN bd ELSE (e.b :> [f |-> e.f, eof |-> FALSE, err |-> FALSE, closed |-> FALSE]) @@ bd
  /\ UNCHANGED <<cfg, canc, tmp, viol>>

Robots(e) ==
  /\ bd' = (e.b :> [f |-> 0, eof |-> FALSE, err |-> FALSE, closed |-> FALSE]) @@ bd
  /\ UNCHANGED <<cfg, ft, canc, tmp, viol>>

Body(e) ==
  /\ bd' = IF e.b \notin DOMAIN bd THEN bd
           ELSE CASE e.e = "beof" -> [bd EXCEPT ![e.b].eof = TRUE]
                  [] e.e = "berr" -> [bd EXCEPT ![e.b].err = TRUE]
                  [] e.e = "bclose" -> [bd EXCEPT ![e.b].closed = TRUE]
  /\ UNCHANGED <<cfg, ft, canc, tmp, viol>>

Exhausted(s) == s.temp /\ s.n >= cfg.max
FRet(e) ==
  LET s == ft[e.f]
      ctx == e.kind = "err" /\ e.ctx /\ canc >= 0 IN
  /\ viol' = viol
       \cup V("C13", s.n > 0 \/ ctx, "fetch returned without a request")
       \cup V("C13", s.n > 0 => ~s.open, "fetch returned before its request did")
       \cup V("C13", e.kind = "page" => s.kind = "ok" /\ e.wraps, "a page that is not the final answer")
       \cup V("C13", (s.kind = "ok" /\ s.n > 0) => e.kind = "page", "a good answer gave no page")
       \cup V("C13", e.kind = "nil" => s.kind = "status" /\ s.status = 404, "neither page nor error, but not for a 404")
       \cup V("C13", s.kind = "status" /\ s.status = 404 => e.kind = "nil", "404 gave an error")
       \cup V("C13", (s.kind = "status" /\ s.status # 404 /\ ~s.temp) => e.kind = "err" /\ e.status = s.status /\ e.t = s.at, "an error status gave no immediate FetchError")
       \cup V("C13", (s.kind = "err" /\ ~s.temp) => e.kind = "err" /\ (e.wraps \/ ctx) /\ e.t = s.at, "a permanent client error is not reported at once")
       \cup V("C13", Exhausted(s) => e.kind = "err" /\ (ctx \/ (IF s.kind = "status" THEN e.status = s.status ELSE e.wraps)), "exhausted attempts do not report the last failure")
       \cup V("C13", (s.temp /\ s.n < cfg.max) => ctx, "gave up before MaxAttempts requests")
       \cup V("C13", (s.temp /\ s.n < cfg.max /\ ctx) => e.t = (IF canc > s.at THEN canc ELSE s.at), "cancelled wait does not end at once")
       \cup V("C14", ~LeakBut(e.f, IF e.kind = "page" THEN s.page ELSE 0), "response body not read and closed when the fetch ended")
  /\ UNCHANGED <<cfg, ft, bd, canc, tmp>>

Scrape(e) ==
  /\ viol' = viol
       \cup V("C13", ft[e.f].kind = "ok", "scraped a page that is not a good answer")
       \cup V("C14", ~LeakBut(e.f, ft[e.f].page), "response body not read and closed when the fetch ended")
  /\ UNCHANGED <<cfg, ft, bd, canc, tmp>>

FDone(e) ==
  /\ viol' = viol \cup (IF e.f = 0 THEN {} ELSE
       V("C14", ~Leak(e.f), "response body not read and closed when its URL was finished"))
  /\ UNCHANGED <<cfg, ft, bd, canc, tmp>>

Tmp(e) == tmp' = e.what /\ UNCHANGED <<cfg, ft, bd, canc, viol>>

Ret(e) ==
  /\ viol' = viol
       \cup V("C14", \A i \in DOMAIN bd : Settled(bd[i]), "response body not read and closed when Run returned")
       \cup V("C13", e.ok => \A f \in DOMAIN ft : ~(ft[f].temp /\ ft[f].n < cfg.max), "gave up before MaxAttempts requests")
       \cup V("C13", ~(tmp # "" /\ canc < 0 /\ ~e.ok /\ e.tmp), "a temporary " \o tmp \o " error is not retried by the engine")
  /\ UNCHANGED <<cfg, ft, bd, canc, tmp>>

Step(e) ==
  CASE e.e = "begin" -> Begin(e)
    [] e.e = "freq" -> Req(e)
    [] e.e = "fans" -> Ans(e)
    [] e.e = "rans" -> Robots(e)
    [] e.e \in {"beof", "berr", "bclose"} -> Body(e)
    [] e.e = "fret" -> FRet(e)
    [] e.e = "scrape" -> Scrape(e)
    [] e.e = "fdone" -> FDone(e)
    [] e.e = "tmpfail" -> Tmp(e)
    [] e.e = "cancel" -> canc' = e.t /\ UNCHANGED <<cfg, ft, bd, tmp, viol>>
    [] e.e = "ret" -> Ret(e)
    [] e.e \in {"stuck", "hang"} -> viol' = viol \cup {<<"C13", "a fetch never returns">>} /\ UNCHANGED <<cfg, ft, bd, canc, tmp>>
    [] OTHER -> UNCHANGED vars
=============================================================================
