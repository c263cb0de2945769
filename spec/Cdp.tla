-------------------------------- MODULE Cdp ----------------------------------
(***************************************************************************)
(* Design of the browser client: a pool of idle tabs, a debugger           *)
(* connection per request, a navigation whose document may redirect and    *)
(* load other resources, any of whose steps may fail or be cancelled. A    *)
(* tab whose request failed is closed, not used again.                     *)
(* Every step performs its CdpObs event.                                   *)
(***************************************************************************)
EXTENDS CdpObs
CONSTANTS N, Cap, MaxTabs, Faults
VARIABLES pool, pc, tab, con, bad, nt, nc, nf, over, toclose
dvars == <<pool, pc, tab, con, bad, nt, nc, nf, over, toclose>>
R == 1..N
DInit == Init0 /\ pool = {} /\ pc = [r \in R |-> "boot"] /\ tab = [r \in R |-> 0] /\ con = [r \in R |-> 0] /\ bad = [r \in R |-> FALSE]
         /\ nt = 0 /\ nc = 0 /\ nf = 0 /\ over = FALSE /\ toclose = {}
Boot == cfg.n = 0 /\ Begin([n |-> N, k |-> N]) /\ pc' = [r \in R |-> "idle"] /\ UNCHANGED <<pool, tab, con, bad, nt, nc, nf, over, toclose>>
To(r, a, b) == pc[r] = a /\ pc' = [pc EXCEPT ![r] = b]
Start(r) == To(r, "idle", "acq") /\ Do([r |-> r]) /\ UNCHANGED <<pool, tab, con, bad, nt, nc, nf, over, toclose>>
Take(r) == /\ To(r, "acq", "dial") /\ \E t \in pool : pool' = pool \ {t} /\ tab' = [tab EXCEPT ![r] = t]
           /\ UNCHANGED <<vars, con, bad, nt, nc, nf, over, toclose>>
Create(r) == /\ To(r, "acq", "dial") /\ pool = {} /\ nt < MaxTabs /\ nt' = nt + 1 /\ tab' = [tab EXCEPT ![r] = nt + 1] /\ Created([t |-> nt + 1])
             /\ UNCHANGED <<pool, con, bad, nc, nf, over, toclose>>
CreateFails(r) == /\ To(r, "acq", "fail") /\ pool = {} /\ nf < Faults /\ nf' = nf + 1 /\ CFault([t |-> 0])
                  /\ UNCHANGED <<pool, tab, con, bad, nt, nc, over, toclose>>
Knocks(r) == To(r, "dial", "dial2") /\ Knock([t |-> tab[r], busy |-> FALSE]) /\ UNCHANGED <<pool, tab, con, bad, nt, nc, nf, over, toclose>>
Dials(r) == /\ To(r, "dial2", "setup") /\ nc' = nc + 1 /\ con' = [con EXCEPT ![r] = nc + 1] /\ Dial([c |-> nc + 1, t |-> tab[r]])
            /\ UNCHANGED <<pool, tab, bad, nt, nf, over, toclose>>
(* each command, its effect and its reply *)
Next1 == [setup |-> "hdr", hdr |-> "nav", nav |-> "wait", wait |-> "body", body |-> "close"]
Command(r) ==
  /\ pc[r] \in DOMAIN Next1
  /\ pc' = [pc EXCEPT ![r] = Next1[@]]
  /\ CASE pc[r] = "hdr" -> Hdr([c |-> con[r], r |-> r])
       [] pc[r] = "nav" -> Nav([c |-> con[r], r |-> r, ok |-> TRUE])
       [] pc[r] = "body" -> Rep([c |-> con[r]])
       [] OTHER -> Cmd([c |-> con[r]])
  /\ UNCHANGED <<pool, tab, con, bad, nt, nc, nf, over, toclose>>
Fails(r) ==
  /\ pc[r] \in DOMAIN Next1 /\ nf < Faults /\ nf' = nf + 1
  /\ pc' = [pc EXCEPT ![r] = "close"] /\ bad' = [bad EXCEPT ![r] = TRUE] /\ Fault([c |-> con[r]])
  /\ UNCHANGED <<pool, tab, con, nt, nc, over, toclose>>
Abort(r) == rq # <<>> /\ rq[r].st = "fly" /\ ~rq[r].canc /\ nf < Faults /\ nf' = nf + 1 /\ Cancel([r |-> r]) /\ UNCHANGED <<pool, pc, tab, con, bad, nt, nc, over, toclose>>
GivesUp(r) ==
  /\ rq # <<>> /\ rq[r].canc
  /\ \/ To(r, "acq", "fail") /\ UNCHANGED bad
     \/ pc[r] \in {"dial", "dial2"} /\ pc' = [pc EXCEPT ![r] = "drop"] /\ bad' = [bad EXCEPT ![r] = TRUE]
     \/ pc[r] \in DOMAIN Next1 /\ pc' = [pc EXCEPT ![r] = "close"] /\ bad' = [bad EXCEPT ![r] = TRUE]
  /\ UNCHANGED <<vars, pool, tab, con, nt, nc, nf, over, toclose>>
Closes(r) == To(r, "close", IF bad[r] THEN "drop" ELSE "put") /\ Gone([c |-> con[r]]) /\ UNCHANGED <<pool, tab, con, bad, nt, nc, nf, over, toclose>>
Put(r) == /\ To(r, "put", "ok")
          /\ (IF Cardinality(pool) < Cap THEN pool' = pool \cup {tab[r]} /\ UNCHANGED toclose ELSE toclose' = toclose \cup {tab[r]} /\ UNCHANGED pool)
          /\ UNCHANGED <<vars, tab, con, bad, nt, nc, nf, over>>
Drop(r) == To(r, "drop", "fail") /\ toclose' = toclose \cup {tab[r]} /\ UNCHANGED <<vars, pool, tab, con, bad, nt, nc, nf, over>>
CloseTab == \E t \in toclose : toclose' = toclose \ {t} /\ TClosed([t |-> t]) /\ UNCHANGED <<pool, pc, tab, con, bad, nt, nc, nf, over>>
Fin(r) == To(r, "ok", "done") /\ Ret([r |-> r, ok |-> TRUE, status |-> TRUE, body |-> TRUE, len |-> TRUE, hdr |-> TRUE, ck |-> TRUE]) /\ UNCHANGED <<pool, tab, con, bad, nt, nc, nf, over, toclose>>
FinErr(r) == To(r, "fail", "done") /\ Ret([r |-> r, ok |-> FALSE]) /\ UNCHANGED <<pool, tab, con, bad, nt, nc, nf, over, toclose>>
Finish == cfg.n > 0 /\ ~over /\ (\A r \in R : pc[r] = "done") /\ toclose = {} /\ over' = TRUE /\ End /\ UNCHANGED <<pool, pc, tab, con, bad, nt, nc, nf, toclose>>
Work(r) == Start(r) \/ Take(r) \/ Create(r) \/ CreateFails(r) \/ Knocks(r) \/ Dials(r) \/ Command(r) \/ Fails(r) \/ GivesUp(r) \/ Closes(r) \/ Put(r) \/ Drop(r) \/ Fin(r) \/ FinErr(r)
DNext == Boot \/ (\E r \in R : Work(r) \/ Abort(r)) \/ CloseTab \/ Finish
DSpec == DInit /\ [][DNext]_<<vars, dvars>> /\ WF_<<vars, dvars>>(Boot \/ (\E r \in R : Work(r)) \/ CloseTab \/ Finish)
Good == viol = {}
Exclusive == \A a, b \in R : (a # b /\ pc[a] \in DOMAIN Next1 \cup {"close"} /\ pc[b] \in DOMAIN Next1 \cup {"close"}) => tab[a] # tab[b]
Finishes == <>over
=============================================================================
