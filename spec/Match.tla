-------------------------------- MODULE Match --------------------------------
(***************************************************************************)
(* All short patterns against all short texts: Glob agrees with a second   *)
(* definition (splitting at the stars) and with the pattern's translation  *)
(* into a regular expression. With Emit the cases are replayed.            *)
(***************************************************************************)
EXTENDS MatchObs, TLC, Json
CONSTANTS MaxPat, MaxText, Alphabet, Emit
VARIABLES pat, done
QAlphabet == {97, 47, 233}    \* a / e-acute
PatRunes == Alphabet \cup {Star, Quest}
Pats == UNION {[1..n -> PatRunes] : n \in 0..MaxPat}
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxText}

L(op, l) == [op |-> op, c |-> 0, l |-> l]
RuneRe(c) == IF c = Quest THEN L("any", <<>>) ELSE IF c = Star THEN L("star", <<L("any", <<>>)>>) ELSE [op |-> "lit", c |-> c, l |-> <<>>]
AsRe(p) == L("seq", <<L("begin", <<>>)>> \o [i \in DOMAIN p |-> RuneRe(p[i])] \o <<L("end", <<>>)>>)

(* Second definition: the positions in t that are reachable. *)
RECURSIVE Reach(_, _, _, _)
Reach(p, i, t, S) ==
  IF i > Len(p) THEN S
  ELSE Reach(p, i + 1, t, IF p[i] = Star THEN IF S = {} THEN {} ELSE {k \in 0..Len(t) : \E j \in S : j <= k}
                          ELSE {j + 1 : j \in {k \in S : k < Len(t) /\ (p[i] = Quest \/ p[i] = t[k + 1])}})
DInit == Init0 /\ pat \in Pats /\ done = FALSE
DNext == ~done /\ done' = TRUE /\ UNCHANGED <<pat, vars>>
DSpec == DInit /\ [][DNext]_<<pat, done, vars>>
Facts == done \/ \A t \in Texts :
  /\ GlobMatch(pat, t) <=> Len(t) \in Reach(pat, 1, t, {0})
  /\ GlobMatch(pat, t) <=> Found(AsRe(pat), t)
  /\ GlobMatch(<<Star>> \o pat, t) <=> \E i \in 0..Len(t) : GlobMatch(pat, SubSeq(t, i + 1, Len(t)))
  /\ GlobMatch(pat \o <<Star>>, t) <=> \E i \in 0..Len(t) : GlobMatch(pat, SubSeq(t, 1, i))
Out == (Emit /\ ~done) => PrintT("CASE " \o ToJson(pat))
=============================================================================
