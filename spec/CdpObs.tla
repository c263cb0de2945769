------------------------------- MODULE CdpObs --------------------------------
(***************************************************************************)
(* C26: what a browser sees of a client that fetches pages through tabs,   *)
(* and what the callers of the client get.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,   \* n requests, cap (requests allowed to be in flight at a time)
  rq,    \* per request: [st "new"/"fly"/"done", nav, canc]
  cn,    \* per connection: [t, open, r, fault, ov]
  tb,    \* tabs: set of ids that were created; tx: those closed since
  tx,
  lost,  \* creations that the client may not know of, or that failed
  used,  \* failures explained by a fault that belongs to no request
  peak, errs, viol
vars == <<cfg, rq, cn, tb, tx, lost, used, peak, errs, viol>>
V(c, m) == IF c THEN {} ELSE {<<"C26", m>>}

Init0 == cfg = [n |-> 0] /\ rq = <<>> /\ cn = <<>> /\ tb = {} /\ tx = {} /\ lost = 0 /\ used = 0 /\ peak = 0 /\ errs = 0 /\ viol = {}
Begin(e) ==
  /\ cfg' = e /\ rq' = [r \in 1..e.n |-> [st |-> "new", nav |-> 0, canc |-> FALSE]]
  /\ cn' = <<>> /\ tb' = {} /\ tx' = {} /\ lost' = 0 /\ used' = 0 /\ peak' = 0 /\ errs' = 0 /\ viol' = {}

Flying == {r \in DOMAIN rq : rq[r].st = "fly"}
Do(e) ==
  /\ rq' = [rq EXCEPT ![e.r].st = "fly"]
  /\ peak' = IF Cardinality(Flying) + 1 > peak THEN Cardinality(Flying) + 1 ELSE peak
  /\ UNCHANGED <<cfg, cn, tb, tx, lost, used, errs, viol>>
Cancel(e) == rq' = [rq EXCEPT ![e.r].canc = TRUE] /\ UNCHANGED <<cfg, cn, tb, tx, lost, used, peak, errs, viol>>

Created(e) == tb' = tb \cup {e.t} /\ UNCHANGED <<cfg, rq, cn, tx, lost, used, peak, errs, viol>>
(* a creation that failed, or whose answer did not get through: tab t or none *)
CFault(e) == lost' = lost + 1 /\ tb' = tb \ {e.t} /\ UNCHANGED <<cfg, rq, cn, tx, used, peak, errs, viol>>
TClosed(e) ==
  /\ tx' = tx \cup {e.t}
  /\ viol' = viol \cup V(\A c \in DOMAIN cn : cn[c].t = e.t => ~cn[c].open, "a tab is closed while a connection to it is open")
  /\ UNCHANGED <<cfg, rq, cn, tb, lost, used, peak, errs>>

OnTab(t) == {c \in DOMAIN cn : cn[c].t = t /\ cn[c].open}
(* a connection arrives: the client should have closed the others of the tab *)
Knock(e) ==
  /\ viol' = viol \cup V(~e.busy, "a tab is used again before its debugger connection is closed")
  /\ cn' = [c \in DOMAIN cn |-> IF c \in OnTab(e.t) THEN [cn[c] EXCEPT !.ov = 1] ELSE cn[c]]
  /\ UNCHANGED <<cfg, rq, tb, tx, lost, used, peak, errs>>
(* and it is let in, after the browser waited for the others to be gone *)
Dial(e) ==
  /\ viol' = viol \cup V(OnTab(e.t) = {}, "a tab is used again before its debugger connection is closed") \cup V(e.t \notin tx, "a closed tab is used")
  /\ cn' = (e.c :> [t |-> e.t, open |-> TRUE, r |-> 0, fault |-> FALSE, ov |-> 0]) @@ cn
  /\ UNCHANGED <<cfg, rq, tb, tx, lost, used, peak, errs>>
(* a command that can only have been sent after the other connection arrived:
   it follows a reply that was given after that *)
Cmd(e) == viol' = viol \cup V(cn[e.c].ov < 2, "a tab serves two requests at the same time") /\ UNCHANGED <<cfg, rq, cn, tb, tx, lost, used, peak, errs>>
Rep(e) == cn' = [cn EXCEPT ![e.c].ov = IF @ = 1 THEN 2 ELSE @] /\ UNCHANGED <<cfg, rq, tb, tx, lost, used, peak, errs, viol>>
Owner(c, r) == cn[c].r \in {0, r}
Hdr(e) ==
  /\ viol' = viol \cup V(Owner(e.c, e.r), "one debugger connection serves two requests")
  /\ cn' = [cn EXCEPT ![e.c].r = e.r] /\ UNCHANGED <<cfg, rq, tb, tx, lost, used, peak, errs>>
Nav(e) ==
  /\ viol' = viol \cup V(Owner(e.c, e.r), "one debugger connection serves two requests")
       \cup V(rq[e.r].st = "fly" \/ rq[e.r].canc, "a navigation for a request that is over")
       \cup V(rq[e.r].nav = 0, "a request navigates twice")
       \cup V(e.ok, "navigation without the headers and cookies of its request")
  /\ cn' = [cn EXCEPT ![e.c].r = e.r] /\ rq' = [rq EXCEPT ![e.r].nav = @ + 1]
  /\ UNCHANGED <<cfg, tb, tx, lost, used, peak, errs>>
Fault(e) == cn' = [cn EXCEPT ![e.c].fault = TRUE] /\ UNCHANGED <<cfg, rq, tb, tx, lost, used, peak, errs, viol>>
Gone(e) == cn' = [cn EXCEPT ![e.c].open = FALSE] /\ UNCHANGED <<cfg, rq, tb, tx, lost, used, peak, errs, viol>>

Faulted(r) == \E c \in DOMAIN cn : cn[c].r = r /\ cn[c].fault
Loose == Cardinality({c \in DOMAIN cn : cn[c].r = 0 /\ cn[c].fault}) + lost
Ret(e) ==
  LET why == rq[e.r].canc \/ Faulted(e.r) IN
  /\ rq' = [rq EXCEPT ![e.r].st = "done"]
  /\ errs' = errs + (IF e.ok THEN 0 ELSE 1)
  /\ used' = used + (IF e.ok \/ why THEN 0 ELSE 1)
  /\ viol' = viol
       \cup V(~e.ok => why \/ used < Loose, "a request failed although the browser did as told")
       \cup V(e.ok => ~Faulted(e.r), "a failure of the browser is not reported")
       \cup V(e.ok => rq[e.r].nav = 1, "a response without a navigation")
       \cup V(e.ok => e.status, "the status is not the document's")
       \cup V(e.ok => e.body, "the body is not the loaded document")
       \cup V(e.ok => e.len, "Content-Length is not the body's length")
       \cup V(e.ok => e.hdr, "a header of the document is missing")
       \cup V(e.ok => e.ck, "a cookie of the browser is missing")
  /\ UNCHANGED <<cfg, cn, tb, tx, lost, peak>>
(* tabs that the client certainly got to know *)
Known == {t \in tb : \E c \in DOMAIN cn : cn[c].t = t}
End ==
  /\ viol' = viol
       \cup V(\A c \in DOMAIN cn : ~cn[c].open, "a debugger connection is left open")
       \cup V(Cardinality(Known) <= peak + errs + (IF cfg.k > 10 THEN Cardinality(tx) ELSE 0), "idle tabs are not used again")
       \cup V(Cardinality(Known \ tx) <= peak, "tabs that are not used again are left open")
  /\ UNCHANGED <<cfg, rq, cn, tb, tx, lost, used, peak, errs>>
Stuck(e) == viol' = viol \cup {<<"C26", "a request does not return">>} /\ UNCHANGED <<cfg, rq, cn, tb, tx, lost, used, peak, errs>>

Step(e) ==
  CASE e.e = "begin" -> Begin(e)
    [] e.e = "do" -> Do(e)
    [] e.e = "cancel" -> Cancel(e)
    [] e.e = "created" -> Created(e)
    [] e.e = "cfault" -> CFault(e)
    [] e.e = "tclosed" -> TClosed(e)
    [] e.e = "knock" -> Knock(e)
    [] e.e = "dial" -> Dial(e)
    [] e.e = "cmd" -> Cmd(e)
    [] e.e = "rep" -> Rep(e)
    [] e.e = "hdr" -> Hdr(e)
    [] e.e = "nav" -> Nav(e)
    [] e.e = "fault" -> Fault(e)
    [] e.e = "gone" -> Gone(e)
    [] e.e = "ret" -> Ret(e)
    [] e.e = "stuck" -> Stuck(e)
    [] e.e = "end" -> End
    [] OTHER -> UNCHANGED vars
=============================================================================
