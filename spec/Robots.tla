------------------------------- MODULE Robots -------------------------------
(***************************************************************************)
(* All files of a small grammar: one or two rules for a crawler, given in  *)
(* its own group or in the general one, beside a group for another. Checked *)
(* for facts that any reading of robots.txt grants; with Emit the files    *)
(* are printed and replayed into a real crawl of the paths.                *)
(***************************************************************************)
EXTENDS RobotsObs, Json
CONSTANTS Pats, Paths, Layouts, MaxRules, Emit
VARIABLES lay, rules, done

\* "/" "/p" "/p/" "/p/q" "/*q" "/p*r" "/p$" "/*.h$" "/p?" "/*?k" "*q" "" "/*" "/P"
QPats == {<<>>, <<47>>, <<47,112>>, <<47,112,47>>, <<47,112,47,113>>, <<47,42,113>>, <<47,112,36>>, <<47,42,46,104,36>>,
          <<47,112,63>>, <<47,42,63,107>>, <<42,113>>, <<47,42>>, <<47,80>>}
TPats == QPats \cup {<<47,112,42,114>>, <<47,112,42>>, <<47,112,47,113,46,104>>, <<47,112,63,107,61,49>>, <<47,112,47,113,36>>, <<47,42,47,42,36>>, <<47,112,46,104>>}
FewPats == {<<>>, <<47>>, <<47,112>>, <<47,112,47,113>>, <<47,42,113>>, <<47,112,36>>, <<47,42,63,107>>}
\* "/" "/p" "/p/q" "/p/q.h" "/pq" "/p?k=1" "/x/p/q" "/p.h" "/P" "/p/r?k"
QPaths == {<<47>>, <<47,112>>, <<47,112,47,113>>, <<47,112,47,113,46,104>>, <<47,112,113>>, <<47,112,63,107,61,49>>,
           <<47,120,47,112,47,113>>, <<47,112,46,104>>, <<47,80>>, <<47,112,47,114,63,107>>}
AllRules == {[allow |-> a, pat |-> p] : a \in BOOLEAN, p \in Pats}
QLayouts == {"star", "own", "both"}
TLayouts == QLayouts \cup {"shared", "split", "case", "none"}

Other == <<111, 116, 104, 101, 114>>
OwnCase == <<65, 78, 84, 98, 111, 116>>
Root == [allow |-> FALSE, pat |-> <<47>>]
G(as, rs) == [agents |-> as, rules |-> rs]
Groups(l, rs) ==
  CASE l = "star" -> <<G(<<Other>>, <<Root>>), G(<<General>>, rs)>>
    [] l = "own" -> <<G(<<Agent>>, rs), G(<<General>>, <<Root>>)>>
    [] l = "both" -> <<G(<<General>>, <<Root>>), G(<<Other>>, <<Root>>), G(<<Agent>>, rs)>>
    [] l = "shared" -> <<G(<<Other, Agent>>, rs), G(<<General>>, <<Root>>)>>
    [] l = "split" -> <<G(<<Agent>>, SubSeq(rs, 1, 1)), G(<<General>>, <<Root>>), G(<<Agent>>, SubSeq(rs, 2, Len(rs)))>>
    [] l = "case" -> <<G(<<General>>, <<Root>>), G(<<OwnCase>>, rs)>>
    [] l = "none" -> <<G(<<Other>>, rs)>>
File == Groups(lay, rules)

DInit == Init0 /\ lay \in Layouts /\ rules \in UNION {[1..n -> AllRules] : n \in 1..MaxRules} /\ done = FALSE
         /\ (lay = "split" => Len(rules) > 1)
DNext == ~done /\ done' = TRUE /\ UNCHANGED <<lay, rules, vars>>
DSpec == DInit /\ [][DNext]_<<lay, rules, done, vars>>

Vd(rs, t) == Verdict(rs, t)
Swap == IF Len(rules) = 2 THEN <<rules[2], rules[1]>> ELSE rules
(* The order of rules does not matter; the layout chooses the right group; *)
(* a file of one polarity is decided by what matches; an empty rule is no  *)
(* rule; a rule extended by a star is the same rule.                       *)
Facts == \A t \in Paths :
  /\ Vd(rules, t) = Vd(Swap, t)
  /\ HostVerdict([status |-> 200, groups |-> File], t) = (IF lay = "none" THEN "allow" ELSE Vd(rules, t))
  /\ HostVerdict([status |-> 404, groups |-> File], t) = "allow"
  /\ (\A i \in DOMAIN rules : rules[i].allow) => Vd(rules, t) = "allow"
  /\ Vd(Append(rules, [allow |-> FALSE, pat |-> <<>>]), t) = Vd(rules, t)
  /\ Len(rules) = 1 /\ ~rules[1].allow => (Vd(rules, t) = "disallow" <=> rules[1].pat # <<>> /\ Match(rules[1].pat, t))
  /\ \A i \in DOMAIN rules : Match(rules[i].pat, t) => Loose(rules[i].pat, t)
  /\ \A i \in DOMAIN rules : LET p == rules[i].pat IN
       (p = <<>> \/ p[Len(p)] # Dollar) => Match(p, t) = Match(Append(p, Star), t)
Out == (Emit /\ ~done) => PrintT("CASE " \o ToJson([groups |-> File, paths |-> Paths]))
=============================================================================
