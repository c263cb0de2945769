------------------------------- MODULE Lines --------------------------------
(***************************************************************************)
(* Design of the JSON scraper: scan, take the lock, write the line in      *)
(* pieces (the writer may see it in several), let the lock go, return the  *)
(* links. The writer may fail at any piece, and once it did the encoder    *)
(* fails every later page. Without the lock (Locked = FALSE) lines mix.    *)
(***************************************************************************)
EXTENDS LinesObs
CONSTANTS N, Pieces, Locked
VARIABLES pc, bodies, lock, buf, broken
dvars == <<pc, bodies, lock, buf, broken>>
Comp(t) == [tag |-> t, cls |-> "", attr |-> "", comb |-> ""]
TheShape == [k |-> "st", f |-> <<[s |-> << <<Comp("ii")>> >>, a |-> "", t |-> [k |-> "s"]]>>]
Node(p, k, tag, attr, txt) == [p |-> p, k |-> k, tag |-> tag, cls |-> <<>>, attr |-> attr, txt |-> txt]
DocOf(o) == <<Node(0, "d", "", <<>>, <<>>), Node(1, "e", "ii", <<>>, <<>>), Node(2, "t", "", <<>>, <<48 + o>>),
              Node(1, "e", "a", <<<<"href", <<47, 48 + o>>>>>>, <<>>)>>
BaseOf == <<104, 116, 116, 112, 58, 47, 47, 97>>
LinkOf(o) == BaseOf \o <<47, 48 + o>>
S == 1..N

DInit == /\ LInit /\ pc = [o \in S |-> "new"] /\ bodies \in [S -> BOOLEAN] /\ lock = 0 /\ buf = <<>> /\ broken = FALSE
Boot == /\ shape.k = "no" /\ LStep([e |-> "type", t |-> TheShape, sels |-> <<>>]) /\ UNCHANGED dvars
Begin(o) == /\ shape.k # "no" /\ pc[o] = "new"
            /\ LStep([e |-> "sc", o |-> o, d |-> DocOf(o), base |-> BaseOf, body |-> bodies[o]])
            /\ pc' = [pc EXCEPT ![o] = "scan"] /\ UNCHANGED <<bodies, lock, buf, broken>>
Scanned(o) == /\ pc[o] = "scan" /\ pc' = [pc EXCEPT ![o] = IF bodies[o] THEN "lock" ELSE "fail"]
              /\ UNCHANGED <<bodies, lock, buf, broken, lvars>>
Take(o) == /\ pc[o] = "lock" /\ (Locked => lock = 0)
           /\ lock' = IF Locked THEN o ELSE lock
           /\ pc' = [pc EXCEPT ![o] = IF broken THEN "unfail" ELSE "w1"]
           /\ UNCHANGED <<bodies, buf, broken, lvars>>
W(i) == <<"w1", "w2", "w3">>[i]
Write(o) == \E i \in 1..Pieces :
            /\ pc[o] = W(i)
            /\ IF i < Pieces
               THEN /\ buf' = Append(buf, o) /\ UNCHANGED lvars
               ELSE /\ buf' = <<>>
                    /\ LStep([e |-> "line", ok |-> \A j \in DOMAIN buf : buf[j] = o, v |-> <<<<48 + o>>>>])
            /\ pc' = [pc EXCEPT ![o] = IF i < Pieces THEN W(i + 1) ELSE "free"]
            /\ UNCHANGED <<bodies, lock, broken>>
Break(o) == /\ pc[o] \in {"w1", "w2"} /\ broken' = TRUE /\ LStep([e |-> "wfail"])
            /\ pc' = [pc EXCEPT ![o] = "unfail"] /\ UNCHANGED <<bodies, lock, buf>>
Free(o) == /\ pc[o] \in {"free", "unfail"}
           /\ lock' = 0 /\ pc' = [pc EXCEPT ![o] = IF @ = "free" THEN "ok" ELSE "fail"]
           /\ UNCHANGED <<bodies, buf, broken, lvars>>
Done(o) == /\ pc[o] \in {"ok", "fail"}
           /\ LStep([e |-> "ret", o |-> o, err |-> pc[o] = "fail", werr |-> pc[o] = "fail" /\ bodies[o],
                     r |-> IF pc[o] = "ok" THEN <<LinkOf(o)>> ELSE <<>>])
           /\ pc' = [pc EXCEPT ![o] = "done"] /\ UNCHANGED <<bodies, lock, buf, broken>>
DNext == Boot \/ \E o \in S : Begin(o) \/ Scanned(o) \/ Take(o) \/ Write(o) \/ Break(o) \/ Free(o) \/ Done(o)
DSpec == DInit /\ [][DNext]_<<lvars, dvars>> /\ WF_<<lvars, dvars>>(DNext)
Good == viol = {}
Returns == <>(\A o \in S : pc[o] = "done")
=============================================================================
