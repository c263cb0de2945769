------------------------------ MODULE QueueObs ------------------------------
(***************************************************************************)
(* C10: the memory queue as a linearizable object. "call" and "ret" bracket*)
(* an operation; it takes effect atomically somewhere in between. `poss`   *)
(* holds every abstract state consistent with what was observed: each is a *)
(* queue [q, closed, acc] together with the operations that have taken     *)
(* effect and not yet returned (eff: operation -> result). A ret keeps the *)
(* states in which the operation could have had that result; none left     *)
(* means the history is not linearizable.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES open,  \* operations called and not returned: id -> call
          poss, cancq, viol
vars == <<open, poss, cancq, viol>>

Start == {[q |-> <<>>, closed |-> FALSE, acc |-> 0, eff |-> <<>>]}
Init0 == open = <<>> /\ poss = Start /\ cancq = FALSE /\ viol = {}
Begin == open' = <<>> /\ poss' = Start /\ cancq' = FALSE /\ viol' = {}

Res(k, u) == <<k, u>>
Eff(s, o, r) == [s EXCEPT !.eff = (o :> r) @@ @]

(* The ways operation o, called as c, can take effect in state s. *)
Effects(s, o, c, cq) ==
  CASE c.op = "enq" ->
         IF c.us = <<>> THEN {Eff(s, o, Res("ok", 0))} \cup (IF s.closed THEN {Eff(s, o, Res("eof", 0))} ELSE {}) \cup (IF c.c /\ cq THEN {Eff(s, o, Res("ctx", 0))} ELSE {})
         ELSE (IF s.closed THEN {Eff(s, o, Res("eof", 0))} ELSE {})
           \cup (IF c.c /\ cq THEN {Eff(s, o, Res("ctx", 0))} ELSE {})
           \cup (IF ~s.closed /\ ~(c.c /\ c.pre) THEN {Eff([s EXCEPT !.q = @ \o c.us, !.acc = @ + Len(c.us)], o, Res("ok", 0))} ELSE {})
    [] c.op = "deq" ->
         (IF s.q # <<>> THEN {Eff([s EXCEPT !.q = Tail(@)], o, Res("ok", Head(s.q)))} ELSE {})
           \cup (IF s.q = <<>> /\ s.closed THEN {Eff(s, o, Res("eof", 0))} ELSE {})
           \cup (IF c.c /\ cq THEN {Eff(s, o, Res("ctx", 0))} ELSE {})
    [] c.op = "done" -> {Eff([s EXCEPT !.acc = IF @ > 0 THEN @ - 1 ELSE 0], o, Res("ok", 0))}
    [] c.op = "wait" -> IF s.acc = 0 THEN {Eff(s, o, Res("ok", 0))} ELSE {}
    [] c.op = "close" -> {Eff([s EXCEPT !.acc = IF @ >= Len(s.q) THEN @ - Len(s.q) ELSE 0, !.q = <<>>, !.closed = TRUE], o, Res("ok", 0))}
    [] OTHER -> {}

Succ(s, op, cq) == UNION {Effects(s, o, op[o], cq) : o \in DOMAIN op \ DOMAIN s.eff}
RECURSIVE Closure(_, _, _, _)
Closure(all, new, op, cq) ==
  LET nxt == UNION {Succ(s, op, cq) : s \in new} \ all IN
  IF nxt = {} THEN all ELSE Closure(all \cup nxt, nxt, op, cq)

Drop(f, o) == [x \in DOMAIN f \ {o} |-> f[x]]

Call(e) ==
  /\ open' = (e.o :> [op |-> e.op, c |-> e.c, pre |-> cancq, us |-> e.us]) @@ open
  /\ UNCHANGED <<poss, cancq, viol>>

What(e, c) ==
  CASE c.op = "deq" /\ e.kind = "ok" -> "Dequeue delivered a URL out of order, twice, or one not queued"
    [] c.op = "deq" /\ e.kind = "eof" -> "Dequeue returned end of queue before it was closed"
    [] c.op = "enq" /\ e.kind = "ok" -> "Enqueue accepted URLs although closed or cancelled"
    [] c.op = "wait" -> "Wait returned while accepted URLs were not acknowledged"
    [] OTHER -> c.op \o " returned " \o e.kind

Ret(e) ==
  LET c == open[e.o]
      all == Closure(poss, poss, open, cancq)
      ok == {s \in all : e.o \in DOMAIN s.eff /\ s.eff[e.o] = Res(e.kind, e.u)} IN
  /\ open' = Drop(open, e.o)
  /\ IF ok # {} THEN poss' = {[s EXCEPT !.eff = Drop(@, e.o)] : s \in ok} /\ UNCHANGED viol
     ELSE poss' = {} /\ viol' = IF poss = {} THEN viol ELSE viol \cup {<<"C10", What(e, c)>>}
  /\ UNCHANGED cancq

(* Nothing runs any more: what is still open is blocked, and may be. *)
MustReturn(s, c) == \/ c.op \in {"enq", "done", "close"}
                    \/ c.op = "deq" /\ (s.q # <<>> \/ s.closed)
                    \/ c.op = "wait" /\ s.acc = 0
Quiet ==
  LET all == Closure(poss, poss, open, cancq)
      ok == {s \in all : DOMAIN s.eff = {} /\ \A o \in DOMAIN open : ~MustReturn(s, open[o])} IN
  /\ poss' = ok
  /\ viol' = IF ok = {} /\ poss # {} THEN viol \cup {<<"C10", "an operation stays blocked although it could return">>} ELSE viol
  /\ UNCHANGED <<open, cancq>>

Step(e) ==
  CASE e.e = "begin" -> Begin
    [] e.e = "call" -> Call(e)
    [] e.e = "ret" -> Ret(e)
    [] e.e = "cancel" -> cancq' = TRUE /\ poss' = Closure(poss, poss, open, FALSE) /\ UNCHANGED <<open, viol>>
    [] e.e = "quiet" -> Quiet
    [] e.e = "hang" -> viol' = viol \cup {<<"C10", "an operation stays blocked although it could return">>} /\ UNCHANGED <<open, poss, cancq>>
    [] OTHER -> UNCHANGED vars
=============================================================================
