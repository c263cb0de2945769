------------------------------ MODULE DedupeObs -----------------------------
(***************************************************************************)
(* C11: de-duplicators. A call is given a batch of URLs (numbers; equal    *)
(* numbers are equal URLs) and returns some of them. For the map variant   *)
(* each URL ever given is returned exactly once; the call that returns it  *)
(* was given it, so at the end of a run what was returned is all of it.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt
VARIABLES exact, open, given, out, viol
vars == <<exact, open, given, out, viol>>
V(c, m) == IF c THEN {} ELSE {<<"C11", m>>}

Init0 == exact = TRUE /\ open = <<>> /\ given = {} /\ out = {} /\ viol = {}
Begin(e) == exact' = e.exact /\ open' = <<>> /\ given' = {} /\ out' = {} /\ viol' = {}

Set(s) == {s[i] : i \in DOMAIN s}
Drop(f, o) == [x \in DOMAIN f \ {o} |-> f[x]]

(* a is a subsequence of b: going through b, how much of a was met. *)
SubSeqOf(a, b) == FoldLeft(LAMBDA k, x : IF k < Len(a) /\ a[k + 1] = x THEN k + 1 ELSE k, 0, b) = Len(a)

Call(e) == open' = (e.o :> e.us) @@ open /\ given' = given \cup Set(e.us) /\ UNCHANGED <<exact, out, viol>>

Ret(e) ==
  LET us == open[e.o] r == e.us IN
  /\ open' = Drop(open, e.o)
  /\ out' = out \cup Set(r)
  /\ viol' = viol
       \cup V(e.ok, "Dedupe failed")
       \cup V(Cardinality(Set(r)) = Len(r), "a URL returned twice within one batch")
       \cup V(Set(r) \cap out = {}, "a URL returned by two calls")
       \cup V(Set(r) \subseteq Set(us), "a URL returned that was not given")
       \cup V(SubSeqOf(r, us), "the order of the input is not kept")
       \cup V(e.same, "the caller's slice was changed")
       \* a call that was alone decides everything it is given
       \cup V(exact /\ DOMAIN open = {e.o} => Set(us) \subseteq out \cup Set(r), "a new URL was withheld")
  /\ UNCHANGED <<exact, given>>

End ==
  /\ viol' = viol \cup V(exact /\ open = <<>> => given = out, "a URL that was given was never returned")
  /\ UNCHANGED <<exact, open, given, out>>

Step(e) ==
  CASE e.e = "begin" -> Begin(e)
    [] e.e = "call" -> Call(e)
    [] e.e = "ret" -> Ret(e)
    [] e.e = "end" -> End
    [] e.e \in {"stuck", "hang"} -> viol' = viol \cup {<<"C11", "a call never returns">>} /\ UNCHANGED <<exact, open, given, out>>
    [] OTHER -> UNCHANGED vars
=============================================================================
