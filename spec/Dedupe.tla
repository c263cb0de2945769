------------------------------- MODULE Dedupe -------------------------------
(***************************************************************************)
(* Designs of the de-duplicators. Kind "map": each URL is tested and set in*)
(* one atomic step (sync.Map.LoadOrStore). Kind "bloom": test and add are  *)
(* steps of their own, inside a lock if Locked; bits(u) may be shared.     *)
(***************************************************************************)
EXTENDS DedupeObs
CONSTANTS TS, Ops, URLs, Kind, Locked, Bits, Free
VARIABLES seen, lock, th, no
dvars == <<seen, lock, th, no>>
Threads == Permutations(TS)
Collide == (1 :> {1, 2}) @@ (2 :> {2, 3}) @@ (3 :> {1, 3})
Own == (1 :> {1}) @@ (2 :> {2}) @@ (3 :> {3})
Batches == {<<a>> : a \in URLs} \cup {<<a, b>> : a, b \in URLs}

DInit == /\ Init0 /\ seen = {} /\ lock = Free /\ no = 0
         /\ th = [t \in TS |-> [pc |-> "boot", in |-> <<>>, i |-> 1, out |-> <<>>]]
Boot == /\ \A t \in TS : th[t].pc = "boot"
        /\ Begin([exact |-> Kind = "map"])
        /\ th' = [t \in TS |-> [th[t] EXCEPT !.pc = "idle"]]
        /\ UNCHANGED <<seen, lock, no>>
CallD(t) == /\ th[t].pc = "idle" /\ no < Ops
            /\ \E b \in Batches : /\ Step([e |-> "call", o |-> t, us |-> b])
                                  /\ th' = [th EXCEPT ![t] = [pc |-> "loop", in |-> b, i |-> 1, out |-> <<>>]]
            /\ no' = no + 1 /\ UNCHANGED <<seen, lock>>
Test(t) == /\ th[t].pc = "loop" /\ th[t].i <= Len(th[t].in)
           /\ Locked => lock \in {Free, t}
           /\ LET u == th[t].in[th[t].i] IN
              IF Bits[u] \subseteq seen
              THEN th' = [th EXCEPT ![t].i = @ + 1] /\ UNCHANGED seen
              ELSE IF Kind = "map" THEN th' = [th EXCEPT ![t].i = @ + 1, ![t].out = Append(@, u)] /\ seen' = seen \cup Bits[u]
              ELSE th' = [th EXCEPT ![t].pc = "add"] /\ UNCHANGED seen
           /\ lock' = IF Locked THEN t ELSE lock
           /\ UNCHANGED <<vars, no>>
Add(t) == /\ th[t].pc = "add"
          /\ LET u == th[t].in[th[t].i] IN seen' = seen \cup Bits[u] /\ th' = [th EXCEPT ![t].i = @ + 1, ![t].out = Append(@, u), ![t].pc = "loop"]
          /\ UNCHANGED <<vars, lock, no>>
RetD(t) == /\ th[t].pc = "loop" /\ th[t].i > Len(th[t].in)
           /\ Step([e |-> "ret", o |-> t, us |-> th[t].out, ok |-> TRUE, same |-> TRUE])
           /\ th' = [th EXCEPT ![t] = [pc |-> "idle", in |-> <<>>, i |-> 1, out |-> <<>>]]
           /\ lock' = IF lock = t THEN Free ELSE lock
           /\ UNCHANGED <<seen, no>>
DNext == Boot \/ \E t \in TS : CallD(t) \/ Test(t) \/ Add(t) \/ RetD(t)
DSpec == DInit /\ [][DNext]_<<vars, dvars>>
Good == viol = {}
Complete == (exact /\ open = <<>> /\ \A t \in TS : th[t].pc = "idle") => given = out
=============================================================================
