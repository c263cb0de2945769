------------------------------ MODULE HttpObs -------------------------------
(***************************************************************************)
(* The caching HTTP client, as seen from its caller, the origin behind it  *)
(* and the storage under it.                                               *)
(*   C15  what is stored, and when                                         *)
(*   C16  what is served without asking the origin                         *)
(*   C17  what a response from the cache is                                *)
(*   C18  how stale responses are validated                                *)
(*   C14  what becomes of the bodies of the origin's responses             *)
(* Times are milliseconds of virtual time since the run began.             *)
(*                                                                         *)
(* A response is [base, status, hdr, cc, date, exp, etag, lm, vary, blen]: *)
(* base names the origin's answer its body came with, cc is a sequence of  *)
(* directives <<name, value>> (value -1: none, BIG: too big to tell).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,     \* strat ("rfc", "agg"), life, mode ("obs": the storage reports, "mem": it does not)
  calls,   \* calls begun, by number
  ent,     \* stored responses, by number
  cur,     \* method and URL -> number of the latest stored response
  viol
vars == <<cfg, calls, ent, cur, viol>>
V(p, c, m) == IF c THEN {} ELSE {<<p, m>>}
NONE == 0 - 2000000000
BIG == 1000000000

Init0 == cfg = [strat |-> "none"] /\ calls = <<>> /\ ent = <<>> /\ cur = <<>> /\ viol = {}
Begin(e) == cfg' = e /\ calls' = <<>> /\ ent' = <<>> /\ cur' = <<>> /\ viol' = {}

(* ---------------------------------------------------------------- policy *)
Has(cc, n) == \E i \in DOMAIN cc : cc[i][1] = n
Val(cc, n) == cc[CHOOSE i \in DOMAIN cc : cc[i][1] = n][2]
HasVal(cc, n) == Has(cc, n) /\ Val(cc, n) >= 0
Ms(v) == IF v >= BIG THEN BIG ELSE IF v >= 1000000 THEN BIG ELSE v * 1000
Min(a, b) == IF a < b THEN a ELSE b

Bypass(q) == ~q.cm \/ q.rng \/ Has(q.cc, "no-store")

(* the explicit lifetime of a response with a Date, NONE if there is none *)
Life(r) == IF HasVal(r.cc, "max-age") THEN Ms(Val(r.cc, "max-age"))
           ELSE IF r.exp # NONE THEN r.exp - r.date ELSE NONE

Cacheable == {200, 203, 204, 206, 300, 301, 404, 405, 410, 414, 501}
MayStore(r, q) ==
  /\ ~Bypass(q) /\ r.status \in Cacheable /\ r.date # NONE
  /\ cfg.strat = "rfc" => ~Has(r.cc, "no-store") /\ Life(r) > 0
(* storing it is expected, too *)
MustStore(r, q) == MayStore(r, q) /\ ~(cfg.strat = "rfc" /\ Life(r) >= BIG)

Age(r, q) == q.t - r.date
ReqLife(r, q) == IF HasVal(q.cc, "max-age") THEN Min(Life(r), Ms(Val(q.cc, "max-age"))) ELSE Life(r)
Fresh(r, q) ==
  IF cfg.strat = "agg" THEN Age(r, q) < cfg.life /\ ~Has(q.cc, "no-cache")
  ELSE /\ ~Has(q.cc, "no-cache") /\ ~Has(r.cc, "no-cache")
       /\ \/ Has(q.cc, "only-if-cached")
          \/ Has(q.cc, "max-stale") /\ Val(q.cc, "max-stale") < 0
          \/ Age(r, q) + (IF HasVal(q.cc, "min-fresh") THEN Ms(Val(q.cc, "min-fresh")) ELSE 0)
                       - (IF HasVal(q.cc, "max-stale") THEN Ms(Val(q.cc, "max-stale")) ELSE 0) < ReqLife(r, q)
(* an enormous lifetime or tolerance may be taken for a smaller one *)
BigVal(q, n) == HasVal(q.cc, n) /\ Ms(Val(q.cc, n)) >= BIG
UnsureServed(r, q) == cfg.strat = "rfc" /\ BigVal(q, "min-fresh") /\ (ReqLife(r, q) >= BIG \/ BigVal(q, "max-stale"))
Unsure(r, q) == cfg.strat = "rfc" /\ (Life(r) >= BIG \/ (HasVal(q.cc, "max-stale") /\ Ms(Val(q.cc, "max-stale")) >= BIG))

(* the request headers the stored response was selected by *)
VaryOK(r, q) == cfg.strat = "agg" \/ \A i \in DOMAIN r.vary : r.vary[i] # "*" /\ r.sel[r.vary[i]] = q.sel[r.vary[i]]

(* the stored response r updated by the 304 answer a *)
Merge(r, a) ==
  [r EXCEPT !.hdr = a.hdr @@ @,
            !.cc = IF a.hascc THEN a.cc ELSE @,
            !.date = IF a.date # NONE THEN a.date ELSE @,
            !.exp = IF a.exp # NONE THEN a.exp ELSE @,
            !.etag = IF a.etag # "" THEN a.etag ELSE @,
            !.lm = IF a.lm # "" THEN a.lm ELSE @,
            !.vary = IF a.hasvary THEN a.vary ELSE @]
FromAnswer(a, q) == [base |-> IF a.status = 304 THEN 0 ELSE a.id, status |-> a.status, hdr |-> a.hdr, cc |-> a.cc, date |-> a.date, exp |-> a.exp,
                     etag |-> a.etag, lm |-> a.lm, vary |-> a.vary, blen |-> a.blen, sel |-> q.sel, mu |-> q.mu]
NoResp == [base |-> 0]

(* ----------------------------------------------------------------- calls *)
Cur(mu) == IF mu \in DOMAIN cur THEN cur[mu] ELSE 0
Call(e) ==
  /\ calls' = (e.c :> [q |-> e, cand |-> {Cur(e.mu)}, reqs |-> <<>>, ans |-> <<>>, lerr |-> FALSE, touched |-> FALSE,
                       res |-> NoResp, from |-> "", back |-> FALSE, eaten |-> "", closing |-> FALSE, stored |-> FALSE, closed1 |-> FALSE, serr |-> FALSE]) @@ calls
  /\ UNCHANGED <<cfg, ent, cur, viol>>
Upd(c, f) == calls' = [calls EXCEPT ![c] = f]

OReq(e) ==
  LET k == calls[e.c] IN
  /\ Upd(e.c, [k EXCEPT !.reqs = Append(@, [inm |-> e.inm, ims |-> e.ims])])
  /\ viol' = viol \cup V("C18", e.same, "the origin's request is not the caller's request")
                  \cup V("C18", ~k.back, "request to the origin after the call returned")
  /\ UNCHANGED <<cfg, ent, cur>>

OAns(e) ==
  /\ Upd(e.c, [calls[e.c] EXCEPT !.ans = Append(@, [a |-> e, eof |-> FALSE, err |-> FALSE, closed |-> FALSE])])
  /\ UNCHANGED <<cfg, ent, cur, viol>>

OBody(e) ==
  LET k == calls[e.c] IN
  /\ Upd(e.c, [k EXCEPT !.ans = [i \in DOMAIN @ |->
        IF @[i].a.id # e.id THEN @[i]
        ELSE CASE e.e = "oeof" -> [@[i] EXCEPT !.eof = TRUE]
               [] e.e = "oerr" -> [@[i] EXCEPT !.err = TRUE]
               [] e.e = "oclose" -> [@[i] EXCEPT !.closed = TRUE]]])
  /\ UNCHANGED <<cfg, ent, cur, viol>>

Load(e) ==
  /\ IF e.c = 0 THEN UNCHANGED <<calls, viol>>
     ELSE /\ Upd(e.c, [calls[e.c] EXCEPT !.lerr = @ \/ e.err])
          /\ viol' = viol \cup V("C15", ~Bypass(calls[e.c].q), "a request that must bypass the cache reads it")
  /\ UNCHANGED <<cfg, ent, cur>>

Same(ret, r, xfc) == ret.status = r.status /\ ret.hdr = r.hdr /\ ret.base = r.base /\ ret.xfc = xfc

(* what is wrong with the call's outcome if the stored response was number s *)
Plain(k, ret) ==   \* the origin's answer to the caller's own request
  LET a == k.ans[1].a IN
  V("C18", Len(k.reqs) = 1, "more than one request to the origin")
  \cup V("C18", k.reqs[1].inm = k.q.inm /\ k.reqs[1].ims = k.q.ims, "a conditional request without a stored response to validate")
  \cup (IF a.err THEN V("C18", ret.kind = "err" /\ ret.wraps, "the origin's failure is not returned")
        ELSE V("C17", ret.kind = "resp" /\ Same(ret, FromAnswer(a, k.q), FALSE), "the origin's answer is not passed on unchanged"))
Validated(k, r, ret) ==
  LET a == k.ans[1].a IN
  V("C18", Len(k.reqs) = 1, "more than one request to the origin")
  \cup V("C18", k.reqs[1].inm = (IF k.q.inm # "" THEN k.q.inm ELSE r.etag), "the validation request does not carry the right If-None-Match")
  \cup V("C18", k.reqs[1].ims = (IF k.q.ims # "" THEN k.q.ims ELSE r.lm), "the validation request does not carry the right If-Modified-Since")
  \cup (IF a.err THEN V("C18", ret.kind = "err" /\ ret.wraps, "a failing validation request does not fail the call")
        ELSE IF a.status = 304 THEN V("C18", ret.kind = "resp" /\ Same(ret, Merge(r, a), TRUE), "a 304 does not return the stored response with merged headers")
        ELSE IF a.status \in 500..599 /\ Has(k.q.cc, "stale-if-error")
             THEN V("C18", ret.kind = "resp" /\ Same(ret, r, TRUE), "a 5xx with stale-if-error does not return the stored response")
        ELSE V("C18", ret.kind = "resp" /\ ret.status = a.status, "the answer to a validation is not returned in its place")
             \cup V("C17", ret.kind = "resp" /\ Same(ret, FromAnswer(a, k.q), FALSE), "the answer to a validation is not passed on unchanged"))
Judge(k, s, ret) ==
  IF s = 0 THEN
    IF k.reqs = <<>> THEN {<<"C17", "a response that the origin did not send for this method and URL">>}
    ELSE Plain(k, ret)
  ELSE LET r == ent[s]
           ok == VaryOK(r, k.q)
           f == Fresh(r, k.q) IN
    IF k.reqs = <<>> THEN
      V("C17", ret.kind = "resp", "call failed without a reason")
      \cup V("C17", ok, "a stored response reused for other values of the headers it varies by")
      \cup V("C16", f \/ UnsureServed(r, k.q), "a stored response served unvalidated although not fresh")
      \cup V("C17", ret.kind = "resp" => ret.base = r.base, "not the latest stored response")
      \cup V("C17", ret.kind = "resp" => Same(ret, r, TRUE), "the cached response differs from the stored one")
    ELSE
      V("C16", ~(f /\ ok) \/ Unsure(r, k.q), "a fresh stored response is not served")
      \cup (IF ~ok THEN Plain(k, ret)
            ELSE IF cfg.strat = "agg" /\ k.reqs[1].inm = k.q.inm /\ k.reqs[1].ims = k.q.ims THEN Plain(k, ret)
            ELSE Validated(k, r, ret))
(* the response that came of it, and where from *)
Outcome(k, s) ==
  IF k.reqs = <<>> THEN IF s = 0 THEN <<NoResp, "">> ELSE <<ent[s], "cache">>
  ELSE LET a == k.ans[Len(k.ans)].a IN
       IF a.err THEN <<NoResp, "">>
       ELSE IF s # 0 /\ VaryOK(ent[s], k.q) /\ ~(cfg.strat = "agg" /\ k.reqs[1].inm = k.q.inm /\ k.reqs[1].ims = k.q.ims)
            THEN IF a.status = 304 THEN <<Merge(ent[s], a), "renewed">>
                 ELSE IF a.status \in 500..599 THEN IF Has(k.q.cc, "stale-if-error") THEN <<ent[s], "cache">> ELSE <<FromAnswer(a, k.q), "5xx">>
                 ELSE <<FromAnswer(a, k.q), "origin">>
       ELSE <<FromAnswer(a, k.q), "origin">>

Settled(b) == b.a.err \/ ((b.eof \/ b.err) /\ b.closed)

Ret(e) ==
  LET k == calls[e.c]
      by == Bypass(k.q)
      good == {s \in k.cand : Judge(k, s, e) = {}}
      s == IF good # {} THEN CHOOSE x \in good : \A y \in good : y <= x
           ELSE IF Cur(k.q.mu) \in k.cand THEN Cur(k.q.mu) ELSE CHOOSE x \in k.cand : TRUE
      o == IF by THEN Outcome(k, 0) ELSE Outcome(k, s)
      bad == IF k.lerr /\ ~by THEN V("C15", e.kind = "err" /\ k.reqs = <<>>, "a failing storage lookup does not fail the call")
             ELSE IF k.ans = <<>> /\ k.reqs # <<>> THEN {<<"C18", "call returned before the origin answered">>}
             ELSE IF by THEN (IF k.reqs = <<>> THEN {<<"C15", "a request that must bypass the cache does not reach the origin">>} ELSE Plain(k, e))
             ELSE Judge(k, s, e) IN
  /\ Upd(e.c, [k EXCEPT !.back = TRUE, !.res = IF e.kind = "resp" THEN o[1] ELSE NoResp, !.from = IF by THEN "bypass" ELSE o[2]])
  /\ viol' = viol \cup bad
       \cup V("C18", e.mine, "the caller's request was changed")
       \cup V("C14", e.kind = "err" => \A i \in DOMAIN k.ans : Settled(k.ans[i]), "the origin's body is not read and closed when the call failed")
  /\ UNCHANGED <<cfg, ent, cur>>

(* ----------------------------------------------------------------- bodies *)
(* the caller read: "full" to EOF, "all" bytes but not EOF, "part", "err" *)
Eat(e) ==
  LET k == calls[e.c] IN
  /\ Upd(e.c, [k EXCEPT !.eaten = e.how])
  /\ viol' = viol \cup (IF k.res = NoResp THEN {} ELSE
       V(IF k.from = "renewed" THEN "C18" ELSE "C17", e.match /\ (e.how = "full" => e.n = k.res.blen) /\ e.n <= k.res.blen, "the body is not the body the origin sent")
       \cup V(IF k.from = "renewed" THEN "C18" ELSE "C17", (e.how = "err" /\ k.from \in {"cache", "renewed"}) => FALSE, "the body of a response from the cache cannot be read"))
  /\ UNCHANGED <<cfg, ent, cur>>
Complete(k) == k.eaten \in {"full", "all"} \/ (k.eaten # "err" /\ k.res # NoResp /\ k.res.blen = 0)
Closing(e) == Upd(e.c, [calls[e.c] EXCEPT !.closing = TRUE]) /\ UNCHANGED <<cfg, ent, cur, viol>>

DoStore(c, n) ==
  LET k == calls[c] IN
  /\ ent' = (n :> k.res) @@ ent
  /\ cur' = (k.q.mu :> n) @@ cur
  /\ calls' = [x \in DOMAIN calls |->
       IF x = c THEN [k EXCEPT !.stored = TRUE]
       ELSE IF calls[x].q.mu = k.q.mu /\ ~calls[x].back THEN [calls[x] EXCEPT !.cand = @ \cup {n}] ELSE calls[x]]
StoreBad(k) ==
  IF k.from = "bypass" THEN {<<"C15", "the response to a request that must bypass the cache is stored">>}
  ELSE V("C15", k.res # NoResp /\ k.from # "5xx" => MayStore(k.res, k.q), "a response that must not be stored is stored")
       \cup V("C15", k.back /\ k.closing, "stored before the body was closed")
       \cup V("C15", Complete(k), "stored although the body was not read completely")
Store(e) ==
  IF e.c = 0 THEN UNCHANGED vars
  ELSE LET k == calls[e.c] IN
  /\ IF e.err THEN /\ Upd(e.c, [k EXCEPT !.serr = TRUE]) /\ UNCHANGED <<ent, cur>>
     ELSE IF k.res = NoResp THEN UNCHANGED <<calls, ent, cur>>
     ELSE DoStore(e.c, e.n)
  /\ viol' = viol \cup StoreBad(k)
  /\ UNCHANGED cfg

Closed(e) ==
  LET k == calls[e.c]
      fromnet == k.from \in {"origin", "renewed"}
      star == cfg.strat = "rfc" /\ k.res # NoResp /\ (\E i \in DOMAIN k.res.vary : k.res.vary[i] = "*")   \* pointless to store
      must == fromnet /\ k.res # NoResp /\ MustStore(k.res, k.q) /\ k.eaten = "full"
      passed == IF k.from \in {"origin", "bypass", "5xx"} /\ k.ans # <<>> THEN k.ans[Len(k.ans)].a.id ELSE 0 IN
  /\ viol' = viol
       \cup V("C15", (must /\ ~star /\ cfg.mode = "obs" /\ ~k.closed1) => k.stored \/ k.serr, IF k.from = "renewed" THEN "a validated response is not renewed in the cache" ELSE "a response that may be stored was not stored")
       \cup V("C18", (must /\ ~star /\ cfg.mode = "obs" /\ ~k.closed1 /\ k.from = "renewed") => k.stored \/ k.serr, "a validated response is not renewed in the cache")
       \cup V("C15", k.serr => e.err, "closing the body hides a storage failure")
       \cup V("C14", \A i \in DOMAIN k.ans : k.ans[i].a.err \/ k.ans[i].closed, "a body of the origin is not closed")
       \cup V("C14", \A i \in DOMAIN k.ans : (k.eaten \in {"full", "err"} \/ k.ans[i].a.id # passed) => Settled(k.ans[i]), "a body of the origin is not read to the end")
  /\ IF must /\ cfg.mode = "mem" /\ ~k.stored THEN DoStore(e.c, e.c) ELSE Upd(e.c, [k EXCEPT !.serr = FALSE, !.closed1 = TRUE]) /\ UNCHANGED <<ent, cur>>
  /\ UNCHANGED cfg

Step(e) ==
  CASE e.e = "begin" -> Begin(e)
    [] e.e = "call" -> Call(e)
    [] e.e = "oreq" -> OReq(e)
    [] e.e = "oans" -> OAns(e)
    [] e.e \in {"oeof", "oerr", "oclose"} -> OBody(e)
    [] e.e = "load" -> Load(e)
    [] e.e = "ret" -> Ret(e)
    [] e.e = "eat" -> Eat(e)
    [] e.e = "closing" -> Closing(e)
    [] e.e = "store" -> Store(e)
    [] e.e = "closed" -> Closed(e)
    [] e.e \in {"stuck", "hang"} -> viol' = viol \cup {<<"C17", "a call never returns">>} /\ UNCHANGED <<cfg, calls, ent, cur>>
    [] OTHER -> UNCHANGED vars
=============================================================================
