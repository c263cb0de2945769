-------------------------------- MODULE Http --------------------------------
(***************************************************************************)
(* Design of the caching client: look up, judge freshness, validate, store *)
(* on close. Calls overlap in any way, the origin answers anything, callers*)
(* read all, some or nothing of the body. Every step performs its HttpObs  *)
(* event. BreakX constants turn single safeguards off; with all of them off*)
(* (FALSE) the model must be free of violations.                           *)
(***************************************************************************)
EXTENDS HttpObs
CONSTANTS N, Par, MaxT, Strat, Reqs, Resps, BreakPart, BreakVary, BreakMerge, BreakDrain
VARIABLES now, pc, got, ns, saw
dvars == <<now, pc, got, ns, saw>>
C == 1..N
Sel(x) == [accept |-> x]
Req(cc, x) == [cm |-> TRUE, rng |-> FALSE, cc |-> cc, inm |-> "", ims |-> "", sel |-> Sel(x), mu |-> "GET u"]
QReqs == {Req(<<>>, "a"), Req(<<>>, "b"), Req(<<<<"no-cache", 0 - 1>>>>, "a"), Req(<<<<"max-age", 0>>, <<"stale-if-error", 0 - 1>>>>, "a"),
          Req(<<<<"no-store", 0 - 1>>>>, "a")}
SReqs == {Req(<<>>, "a"), Req(<<>>, "b"), Req(<<<<"max-age", 0>>, <<"stale-if-error", 0 - 1>>>>, "a")}
TReqs == QReqs \cup {Req(<<<<"max-stale", 1>>>>, "a"), Req(<<<<"only-if-cached", 0 - 1>>>>, "b"), [Req(<<>>, "a") EXCEPT !.inm = "e9"]}
Ans(st, cc, vary, etag) == [err |-> FALSE, status |-> st, cc |-> cc, hascc |-> cc # <<>>, vary |-> vary, hasvary |-> FALSE, etag |-> etag, lm |-> "", blen |-> IF st = 304 THEN 0 ELSE 2]
MA(n) == <<<<"max-age", n>>>>
QResps == {Ans(200, MA(1), <<>>, "e1"), Ans(200, MA(1), <<"accept">>, ""), Ans(200, MA(1) \o <<<<"no-store", 0 - 1>>>>, <<>>, ""),
           Ans(304, MA(1), <<>>, ""), Ans(304, <<<<"no-store", 0 - 1>>>>, <<>>, ""), Ans(500, MA(1), <<>>, ""), [Ans(200, <<>>, <<>>, "") EXCEPT !.err = TRUE]}
SResps == {Ans(200, MA(1), <<"accept">>, "e1"), Ans(304, MA(1), <<>>, ""), Ans(500, MA(1), <<>>, "")}
TResps == QResps \cup {Ans(404, MA(2), <<"*">>, "e2"), Ans(200, <<<<"no-cache", 0 - 1>>>> \o MA(1), <<>>, "e3")}
Hdr(id, a) == [gen |-> id, cc |-> a.cc] @@ (IF a.status = 304 THEN <<>> ELSE [base |-> id])

DInit == Init0 /\ now = 0 /\ pc = [c \in C |-> "new"] /\ got = [c \in C |-> 0] /\ ns = 0 /\ saw = FALSE
Boot == cfg.strat = "none" /\ Begin([strat |-> Strat, life |-> 1000, mode |-> "obs"]) /\ UNCHANGED dvars
T == now * 1000
Active == {c \in C : pc[c] \notin {"new", "done"}}
To(c, b) == pc' = [pc EXCEPT ![c] = b]
Start(c) ==
  /\ cfg.strat # "none" /\ pc[c] = "new" /\ Cardinality(Active) < Par /\ \A d \in 1..c-1 : pc[d] # "new"
  /\ \E q \in Reqs : /\ Call([e |-> "call", c |-> c, t |-> T] @@ q)
                     /\ To(c, IF Bypass(q) THEN "send" ELSE "load")
  /\ UNCHANGED <<now, got, ns, saw>>
Look(c) ==
  /\ pc[c] = "load" /\ Load([c |-> c, err |-> FALSE])
  /\ LET q == calls[c].q
         s == Cur(q.mu) IN
     /\ got' = [got EXCEPT ![c] = s]
     /\ To(c, IF s = 0 \/ ~(VaryOK(ent[s], q) \/ BreakVary) THEN "send" ELSE IF Fresh(ent[s], q) THEN "hit" ELSE IF cfg.strat = "agg" THEN "send" ELSE "validate")
  /\ UNCHANGED <<now, ns, saw>>
Resp(c, r, xfc) == [c |-> c, mine |-> TRUE, kind |-> "resp", status |-> r.status, base |-> r.base, hdr |-> r.hdr, xfc |-> xfc, wraps |-> FALSE, t |-> T]
Hit(c) == pc[c] = "hit" /\ Ret(Resp(c, ent[got[c]], TRUE)) /\ To(c, "eat") /\ UNCHANGED <<now, got, ns, saw>>
Ask(c) ==
  /\ pc[c] \in {"send", "validate"}
  /\ LET q == calls[c].q IN
     OReq([c |-> c, same |-> TRUE, ims |-> q.ims, inm |-> IF pc[c] = "validate" /\ q.inm = "" THEN ent[got[c]].etag ELSE q.inm])
  /\ To(c, IF pc[c] = "send" THEN "sent" ELSE "asked") /\ UNCHANGED <<now, got, ns, saw>>
Answer(c) ==
  /\ pc[c] \in {"sent", "asked"}
  /\ \E a \in Resps : /\ ~(pc[c] = "sent" /\ a.status = 304)
                      /\ OAns([c |-> c, id |-> c, date |-> T, exp |-> NONE, hdr |-> Hdr(c, a), t |-> T] @@ a)
                      /\ To(c, IF a.err THEN "fail" ELSE IF pc[c] = "sent" THEN "pass"
                               ELSE IF a.status = 304 \/ (a.status >= 500 /\ Has(calls[c].q.cc, "stale-if-error")) THEN (IF BreakDrain THEN "settle" ELSE "drain") ELSE "pass")
  /\ UNCHANGED <<now, got, ns, saw>>
Fail(c) == pc[c] = "fail" /\ Ret([c |-> c, mine |-> TRUE, kind |-> "err", status |-> 0, base |-> 0, hdr |-> <<>>, xfc |-> FALSE, wraps |-> TRUE, t |-> T]) /\ To(c, "done") /\ UNCHANGED <<now, got, ns, saw>>
A(c) == calls[c].ans[1].a
Pass(c) == pc[c] = "pass" /\ Ret(Resp(c, FromAnswer(A(c), calls[c].q), FALSE)) /\ To(c, "eat") /\ UNCHANGED <<now, got, ns, saw>>
Drain(c) == pc[c] = "drain" /\ OBody([e |-> "oeof", c |-> c, id |-> c]) /\ To(c, "shut") /\ UNCHANGED <<now, got, ns, saw>>
Shut(c) == pc[c] = "shut" /\ OBody([e |-> "oclose", c |-> c, id |-> c]) /\ To(c, "settle") /\ UNCHANGED <<now, got, ns, saw>>
Reuse(c) ==
  /\ pc[c] = "settle"
  /\ Ret(Resp(c, IF A(c).status = 304 THEN (IF BreakMerge THEN ent[got[c]] ELSE Merge(ent[got[c]], A(c))) ELSE ent[got[c]], TRUE))
  /\ To(c, "eat") /\ UNCHANGED <<now, got, ns, saw>>
FromNet(c) == calls[c].from \in {"origin", "bypass", "5xx"}
EatIt(c) ==
  /\ pc[c] = "eat"
  /\ \E h \in {"full", "part"} \cup (IF FromNet(c) THEN {"err"} ELSE {}) :
       Eat([c |-> c, how |-> h, n |-> IF h = "full" THEN calls[c].res.blen ELSE 0, match |-> TRUE])
  /\ To(c, IF FromNet(c) THEN "note" ELSE "close") /\ UNCHANGED <<now, got, ns, saw>>
Note(c) ==
  /\ pc[c] = "note"
  /\ IF calls[c].eaten = "part" THEN UNCHANGED vars ELSE OBody([e |-> IF calls[c].eaten = "full" THEN "oeof" ELSE "oerr", c |-> c, id |-> c])
  /\ To(c, "close") /\ UNCHANGED <<now, got, ns, saw>>
Close(c) == pc[c] = "close" /\ Closing([c |-> c]) /\ To(c, IF FromNet(c) THEN "under" ELSE "store") /\ UNCHANGED <<now, got, ns, saw>>
Under(c) == pc[c] = "under" /\ OBody([e |-> "oclose", c |-> c, id |-> c]) /\ To(c, "store") /\ UNCHANGED <<now, got, ns, saw>>
StoreIt(c) ==
  /\ pc[c] = "store"
  /\ LET k == calls[c] IN
     IF k.from \in {"origin", "renewed"} /\ MayStore(k.res, k.q) /\ (Complete(k) \/ BreakPart)
     THEN Store([c |-> c, n |-> ns + 1, err |-> FALSE]) /\ ns' = ns + 1
     ELSE UNCHANGED <<vars, ns>>
  /\ To(c, "closed") /\ UNCHANGED <<now, got, saw>>
Done(c) == pc[c] = "closed" /\ Closed([c |-> c, err |-> FALSE, t |-> T]) /\ To(c, "done") /\ UNCHANGED <<now, got, ns, saw>>
Tick == now < MaxT /\ cfg.strat # "none" /\ Active = {} /\ now' = now + 1 /\ UNCHANGED <<vars, pc, got, ns, saw>>
Work(c) == Look(c) \/ Hit(c) \/ Ask(c) \/ Answer(c) \/ Fail(c) \/ Pass(c) \/ Drain(c) \/ Shut(c) \/ Reuse(c) \/ EatIt(c) \/ Note(c) \/ Close(c) \/ Under(c) \/ StoreIt(c) \/ Done(c)
DNext == Boot \/ Tick \/ \E c \in C : Start(c) \/ Work(c)
DSpec == DInit /\ [][DNext]_<<vars, dvars>> /\ WF_<<vars, dvars>>(Boot) /\ \A c \in C : WF_<<vars, dvars>>(Start(c) \/ Work(c))
Good == viol = {}
(* nothing in the store may not be there, and it is whole *)
StoreSound == \A s \in DOMAIN ent : ent[s].status \in Cacheable /\ (cfg.strat = "rfc" => ~Has(ent[s].cc, "no-store") /\ Life(ent[s]) > 0)
Finishes == <>(\A c \in C : pc[c] = "done")
=============================================================================
