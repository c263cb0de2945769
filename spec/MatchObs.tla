------------------------------ MODULE MatchObs ------------------------------
(***************************************************************************)
(* What the matchers accept (property C28): MatchHostname the URLs whose   *)
(* host is the given one, MatchPattern and MatchRegexp those whose host    *)
(* followed by the (decoded, absolute) path matches. Strings are sequences *)
(* of runes.                                                               *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

Star == 42
Quest == 63
Back == 92
Slash == 47

(* A pattern: * any sequence, ? any one rune, \c the rune c. *)
RECURSIVE Glob(_, _, _, _)
Glob(p, i, t, j) ==
  IF i > Len(p) THEN j > Len(t)
  ELSE CASE p[i] = Star -> \E k \in j..(Len(t) + 1) : Glob(p, i + 1, t, k)
         [] p[i] = Quest -> j <= Len(t) /\ Glob(p, i + 1, t, j + 1)
         [] p[i] = Back /\ i < Len(p) -> j <= Len(t) /\ p[i + 1] = t[j] /\ Glob(p, i + 2, t, j + 1)
         [] OTHER -> j <= Len(t) /\ p[i] = t[j] /\ Glob(p, i + 1, t, j + 1)
GlobMatch(p, t) == Glob(p, 1, t, 1)

(* Regular expressions as trees [op, c, l]: the ends of the matches of r   *)
(* in t that start at i.                                                   *)
RECURSIVE Ends(_, _, _), SeqEnds(_, _, _, _), StarEnds(_, _, _)
SeqEnds(rs, k, t, S) == IF k > Len(rs) THEN S ELSE SeqEnds(rs, k + 1, t, UNION {Ends(rs[k], t, i) : i \in S})
StarEnds(r, t, S) == LET N == S \cup UNION {Ends(r, t, i) : i \in S} IN IF N = S THEN S ELSE StarEnds(r, t, N)
Ends(r, t, i) ==
  CASE r.op = "lit" -> IF i <= Len(t) /\ t[i] = r.c THEN {i + 1} ELSE {}
    [] r.op = "any" -> IF i <= Len(t) THEN {i + 1} ELSE {}
    [] r.op = "digit" -> IF i <= Len(t) /\ t[i] \in 48..57 THEN {i + 1} ELSE {}
    [] r.op = "not" -> IF i <= Len(t) /\ t[i] # r.c THEN {i + 1} ELSE {}
    [] r.op = "begin" -> IF i = 1 THEN {i} ELSE {}
    [] r.op = "end" -> IF i = Len(t) + 1 THEN {i} ELSE {}
    [] r.op = "seq" -> SeqEnds(r.l, 1, t, {i})
    [] r.op = "alt" -> UNION {Ends(r.l[k], t, i) : k \in DOMAIN r.l}
    [] r.op = "opt" -> {i} \cup Ends(r.l[1], t, i)
    [] r.op = "star" -> StarEnds(r.l[1], t, {i})
    [] r.op = "plus" -> StarEnds(r.l[1], t, Ends(r.l[1], t, i))
Found(r, t) == \E i \in 1..(Len(t) + 1) : Ends(r, t, i) # {}

Target(host, path) == host \o (IF path # <<>> /\ path[1] # Slash THEN <<Slash>> ELSE <<>>) \o path
Accepts(m, host, path) ==
  CASE m.kind = "host" -> host = m.pat
    [] m.kind = "pattern" -> GlobMatch(m.pat, Target(host, path))
    [] m.kind = "regexp" -> Found(m.re, Target(host, path))

VARIABLES mat, viol
vars == <<mat, viol>>
Init0 == mat = [kind |-> "none"] /\ viol = {}

Step(e) ==
  CASE e.e = "begin" -> mat' = e.m /\ viol' = {}
    [] e.e = "match" ->
         /\ viol' = viol \cup (IF e.got = Accepts(mat, e.host, e.path) THEN {}
                               ELSE {<<"C28", IF e.got THEN "a URL that does not match is accepted" ELSE "a URL that matches is rejected">>})
         /\ UNCHANGED mat
    [] e.e = "crawl" -> \* URLs a crawl with that matcher queued
         /\ viol' = viol \cup UNION {IF e.urls[i].got = Accepts(mat, e.urls[i].host, e.urls[i].path) THEN {}
                                     ELSE {<<"C28", IF e.urls[i].got THEN "a crawl queues a URL that does not match" ELSE "a crawl leaves out a URL that matches">>} : i \in DOMAIN e.urls}
         /\ UNCHANGED mat
    [] e.e = "changed" -> viol' = viol \cup {<<"C28", "the matcher changed the URL">>} /\ UNCHANGED mat
    [] e.e \in {"stuck", "hang"} -> viol' = viol \cup {<<"C28", "a match never returns">>} /\ UNCHANGED mat
    [] OTHER -> UNCHANGED vars
=============================================================================
