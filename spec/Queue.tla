------------------------------- MODULE Queue --------------------------------
(***************************************************************************)
(* Design of the memory queue: one mutex, one condition variable, a slice, *)
(* a closed flag and a count of unacknowledged URLs. Threads run arbitrary *)
(* operations; every history has to be linearizable (QueueObs).            *)
(***************************************************************************)
EXTENDS QueueObs
CONSTANTS TS, Ops, Cs, CountsDone
VARIABLES pend, stopped, unacked, th, nu, no
dvars == <<pend, stopped, unacked, th, nu, no>>
Threads == Permutations(TS)

DInit == /\ Init0 /\ pend = <<>> /\ stopped = FALSE /\ unacked = 0 /\ nu = 0 /\ no = 0
         /\ th = [t \in TS |-> [pc |-> "idle", op |-> "", us |-> <<>>, c |-> FALSE, o |-> 0, res |-> <<"", 0>>, hold |-> {}]]

Begins(t, op, us, c) ==
  /\ th[t].pc = "idle" /\ no < Ops
  /\ Step([e |-> "call", o |-> t, op |-> op, c |-> c, us |-> us])
  /\ no' = no + 1
  /\ th' = [th EXCEPT ![t] = [@ EXCEPT !.pc = "crit", !.op = op, !.us = us, !.c = c, !.o = t,
                                       !.hold = IF op = "done" THEN @ \ {us[1]} ELSE @]]
  /\ UNCHANGED <<pend, stopped, unacked>>

Enq(t) == \E k \in 1..2, c \in Cs : Begins(t, "enq", [i \in 1..k |-> nu + i], c) /\ nu' = nu + k
Deq(t) == \E c \in Cs : Begins(t, "deq", <<>>, c) /\ UNCHANGED nu
Ack(t) == \E u \in th[t].hold : Begins(t, "done", <<u>>, FALSE) /\ UNCHANGED nu
Wai(t) == Begins(t, "wait", <<>>, FALSE) /\ UNCHANGED nu
Clo(t) == Begins(t, "close", <<>>, FALSE) /\ UNCHANGED nu

Awake(f) == [t \in TS |-> IF f[t].pc = "asleep" THEN [f[t] EXCEPT !.pc = "crit"] ELSE f[t]]
Fin(t, k, u) == [th EXCEPT ![t] = [@ EXCEPT !.pc = "fin", !.res = <<k, u>>]]
Sleep(t) == [th EXCEPT ![t] = [@ EXCEPT !.pc = "asleep"]]
Cx(t) == th[t].c /\ cancq

(* one critical section, entered for the first time or after being woken *)
Crit(t) ==
  /\ th[t].pc = "crit"
  /\ CASE th[t].op = "enq" ->
            IF stopped THEN th' = Fin(t, "eof", 0) /\ UNCHANGED <<pend, stopped, unacked>>
            ELSE IF Cx(t) THEN th' = Fin(t, "ctx", 0) /\ UNCHANGED <<pend, stopped, unacked>>
            ELSE pend' = pend \o th[t].us /\ unacked' = unacked + Len(th[t].us) /\ th' = Awake(Fin(t, "ok", 0)) /\ UNCHANGED stopped
       [] th[t].op = "deq" ->
            IF pend # <<>> THEN pend' = Tail(pend) /\ th' = Fin(t, "ok", Head(pend)) /\ UNCHANGED <<stopped, unacked>>
            ELSE IF stopped THEN th' = Fin(t, "eof", 0) /\ UNCHANGED <<pend, stopped, unacked>>
            ELSE IF Cx(t) THEN th' = Fin(t, "ctx", 0) /\ UNCHANGED <<pend, stopped, unacked>>
            ELSE th' = Sleep(t) /\ UNCHANGED <<pend, stopped, unacked>>
       [] th[t].op = "done" ->
            unacked' = unacked - 1 /\ th' = (IF unacked = 1 \/ ~CountsDone THEN Awake(Fin(t, "ok", 0)) ELSE Fin(t, "ok", 0)) /\ UNCHANGED <<pend, stopped>>
       [] th[t].op = "wait" ->
            th' = (IF unacked > 0 THEN Sleep(t) ELSE Fin(t, "ok", 0)) /\ UNCHANGED <<pend, stopped, unacked>>
       [] th[t].op = "close" ->
            stopped' = TRUE /\ unacked' = unacked - Len(pend) /\ pend' = <<>> /\ th' = Awake(Fin(t, "ok", 0))
  /\ UNCHANGED <<vars, nu, no>>

Returns(t) ==
  /\ th[t].pc = "fin"
  /\ Step([e |-> "ret", o |-> th[t].o, kind |-> th[t].res[1], u |-> th[t].res[2]])
  /\ th' = [th EXCEPT ![t] = [@ EXCEPT !.pc = "idle", !.res = <<"", 0>>, !.us = <<>>, !.o = 0, !.op = "",
             !.hold = IF th[t].op = "deq" /\ th[t].res[1] = "ok" THEN @ \cup {th[t].res[2]} ELSE @]]
  /\ UNCHANGED <<pend, stopped, unacked, nu, no>>

Cancels == TRUE \in Cs /\ ~cancq /\ Step([e |-> "cancel"]) /\ UNCHANGED dvars

DNext == Cancels \/ \E t \in TS : Enq(t) \/ Deq(t) \/ Ack(t) \/ Wai(t) \/ Clo(t) \/ Crit(t) \/ Returns(t)
DSpec == DInit /\ [][DNext]_<<vars, dvars>>

Never == {FALSE}
Good == viol = {}
(* when every thread is idle or asleep, those asleep have to be *)
QuietOK == (\A t \in TS : th[t].pc \in {"idle", "asleep"}) =>
  \E s \in Closure(poss, poss, open, cancq) : DOMAIN s.eff = {} /\ \A o \in DOMAIN open : ~MustReturn(s, open[o])
Accounting == unacked = Len(pend) + Cardinality(UNION {th[t].hold : t \in TS})
                + Cardinality({t \in TS : th[t].op = "deq" /\ th[t].pc = "fin" /\ th[t].res[1] = "ok"})
                + Cardinality({t \in TS : th[t].op = "done" /\ th[t].pc = "crit"})
=============================================================================
