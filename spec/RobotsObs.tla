----------------------------- MODULE RobotsObs -----------------------------
(***************************************************************************)
(* What a robots.txt file allows (property C07, after RFC 9309), as a      *)
(* function of its groups, and the observer that compares it with the      *)
(* pages a polite crawl requests. Strings are sequences of character codes.*)
(*                                                                         *)
(* Where the standard and its common readings differ (ties between allow   *)
(* and disallow, the length of a rule with wildcards, whether a wildcard   *)
(* rule is anchored at the start of the path) the verdict is "unclear" and *)
(* nothing is demanded.                                                    *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC

Star == 42
Dollar == 36
Pct == 37

Lower(s) == [i \in DOMAIN s |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]

IsHex(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HexV(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Unreserved(v) == v \in 48..57 \/ v \in 65..90 \/ v \in 97..122 \/ v \in {45, 46, 95, 126}
RECURSIVE DecF(_, _)
DecF(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = Pct /\ i + 2 <= Len(s) /\ IsHex(s[i+1]) /\ IsHex(s[i+2])
       THEN LET v == 16 * HexV(s[i+1]) + HexV(s[i+2]) IN
            <<IF Unreserved(v) \/ v >= 128 THEN v ELSE 1000 + v>> \o DecF(s, i + 3)
       ELSE <<s[i]>> \o DecF(s, i + 1)
(* Comparable form: escapes of unreserved and non-ASCII octets decoded. *)
Dec(s) == DecF(s, 1)

RECURSIVE Trim(_)
Trim(p) == IF p # <<>> /\ p[Len(p)] = Star THEN Trim(SubSeq(p, 1, Len(p) - 1)) ELSE p
Wild(p) == \E i \in DOMAIN Trim(p) : p[i] \in {Star, Dollar}

(* p from position i matches t from position j on. *)
RECURSIVE M(_, _, _, _)
M(p, i, t, j) ==
  IF i > Len(p) THEN TRUE
  ELSE IF p[i] = Star THEN \E k \in j..(Len(t) + 1) : M(p, i + 1, t, k)
  ELSE IF p[i] = Dollar /\ i = Len(p) THEN j = Len(t) + 1
  ELSE j <= Len(t) /\ p[i] = t[j] /\ M(p, i + 1, t, j + 1)
Match(p, t) == M(p, 1, t, 1)
Loose(p, t) == IF Wild(p) THEN \E j \in 1..(Len(t) + 1) : M(p, 1, t, j) ELSE Match(p, t)

(* The verdict of rules (sequence of [allow, pat]) on the target t. *)
Verdict(rules, target) ==
  LET t == Dec(target)
      D == [i \in DOMAIN rules |-> Dec(rules[i].pat)]
      R == {i \in DOMAIN rules : rules[i].pat # <<>>}
      A == {i \in R : Match(D[i], t)}
      U == {i \in R : Loose(D[i], t)}
      Best(S, L(_)) == {i \in S : \A j \in S : L(j) <= L(i)}
      Trimmed(i) == Len(Trim(rules[i].pat))
      Raw(i) == Len(rules[i].pat)
      Pol(S) == {rules[i].allow : i \in S} IN
  IF Pol(U) \subseteq {TRUE} THEN "allow"
  ELSE IF Pol(U) = {FALSE} THEN IF A # {} THEN "disallow" ELSE "unclear"
  ELSE IF A = {} THEN "unclear"
  ELSE LET b == Pol(Best(A, Trimmed)) IN
       IF /\ Cardinality(b) = 1 /\ Pol(Best(A, Raw)) = b /\ Pol(Best(U, Trimmed)) = b
          /\ Pol({i \in U : Wild(rules[i].pat)}) \subseteq b
       THEN IF b = {TRUE} THEN "allow" ELSE "disallow"
       ELSE "unclear"

Agent == <<97, 110, 116, 98, 111, 116>>  \* antbot
General == <<Star>>
Has(g, a) == \E i \in DOMAIN g.agents : Lower(g.agents[i]) = a
RECURSIVE Collect(_, _, _)
Collect(gs, a, i) == IF i > Len(gs) THEN <<>> ELSE (IF Has(gs[i], a) THEN gs[i].rules ELSE <<>>) \o Collect(gs, a, i + 1)
(* The rules that apply: the own groups', else the general ones. *)
Rules(gs) == IF \E i \in DOMAIN gs : Has(gs[i], Agent) THEN Collect(gs, Agent, 1) ELSE Collect(gs, General, 1)
HostVerdict(h, t) == IF h.status >= 400 THEN "allow" ELSE Verdict(Rules(h.groups), t)

VARIABLES hosts, urls, seen, viol
vars == <<hosts, urls, seen, viol>>
Init0 == hosts = <<>> /\ urls = <<>> /\ seen = {} /\ viol = {}

V(c, m) == IF c THEN {} ELSE {<<"C07", m>>}

(* What the library gets wrong (known findings) is told apart. *)
OnlyStars(r) == r.pat # <<>> /\ Trim(r.pat) = <<>>
Escaped(r) == \E i \in DOMAIN r.pat : r.pat[i] = Pct
Without(rules, P(_)) == SelectSeq(rules, LAMBDA r : ~P(r))
Why(u, want) ==
  LET rules == Rules(hosts[u.h].groups) IN
  IF Verdict(Without(Without(rules, OnlyStars), Escaped), u.t) = want
  THEN IF want = "disallow" THEN "page requested that robots.txt disallows" ELSE "page not requested although robots.txt allows it"
  ELSE IF Verdict(Without(rules, Escaped), u.t) = want THEN "a rule of stars only is ignored"
  ELSE "a rule with an escape is not compared with the decoded path"

Judge(i, ok) ==
  LET u == urls[i]
      v == HostVerdict(hosts[u.h], u.t) IN
  CASE hosts[u.h].bad -> {}
    [] v = "allow" /\ i \notin seen /\ ok -> {<<"C07", Why(u, v)>>}
    [] v = "disallow" /\ i \in seen -> {<<"C07", Why(u, v)>>}
    [] OTHER -> {}
Broken == \E i \in DOMAIN urls : hosts[urls[i].h].bad

Step(e) ==
  CASE e.e = "begin" -> hosts' = e.hosts /\ urls' = e.urls /\ seen' = {} /\ viol' = {}
    [] e.e = "page" ->
         /\ seen' = seen \cup {e.u}
         /\ viol' = viol \cup V(e.u \in DOMAIN urls, "page requested that the crawl was not asked for")
                         \cup V(e.u \in DOMAIN urls => ~hosts[urls[e.u].h].bad, "page requested although its robots.txt could not be read")
         /\ UNCHANGED <<hosts, urls>>
    [] e.e = "robots" ->
         /\ viol' = viol \cup V(e.path = "/robots.txt" /\ e.h > 0, "robots.txt requested at another path")
         /\ UNCHANGED <<hosts, urls, seen>>
    [] e.e = "ret" ->
         /\ viol' = viol \cup V(e.nil \/ Broken, "the crawl failed on a valid robots.txt")
                         \cup V(~(e.nil /\ Broken), "a robots.txt that could not be read was ignored")
                         \cup UNION {Judge(i, e.nil) : i \in DOMAIN urls}
         /\ UNCHANGED <<hosts, urls, seen>>
    [] e.e \in {"stuck", "hang"} -> viol' = viol \cup {<<"C07", "a crawl never returns">>} /\ UNCHANGED <<hosts, urls, seen>>
    [] OTHER -> UNCHANGED vars
=============================================================================
