------------------------------- MODULE Sweep --------------------------------
(***************************************************************************)
(* Every small set of entries before a sweep: checks that the sweep of     *)
(* DiskObs does what is asked of one (and only that), and gives the sets   *)
(* as cases for the real code. Entry i is stored at time i * 10, possibly  *)
(* replacing an earlier one, the sweep happens at T; entries stored at or  *)
(* before time Cut are expired then. Where only age counts, the file system *)
(* may refuse to remove the entries of some keys (bad) in a first sweep.   *)
(***************************************************************************)
EXTENDS DiskObs, Json
CONSTANTS N, NK, Sizes, Budgets
VARIABLES c, i, bad
T == 1000
svars == <<vars, c, i, bad>>
(* canonical: keys in order of first use *)
Canon(e) == \A j \in DOMAIN e : e[j][1] <= 1 + Cardinality({e[h][1] : h \in 1..j - 1})
MaxAge(x) == IF x.cut = 0 THEN 0 ELSE T - x.cut * 10 - 5
SInit == Init0 /\ i = 0 /\ (\E m \in 1..N : \E e \in [1..m -> (1..NK) \X Sizes] : \E cut \in 0..m : \E max \in Budgets : Canon(e) /\ c = [ent |-> e, cut |-> cut, max |-> max])
         /\ bad \in IF c.max = 0 THEN {<<>>, <<0>>} \cup {<<k>> : k \in 1..NK} ELSE {<<>>}
SMove ==
  \/ /\ i = 0 /\ Begin([mode |-> "sweep", keys |-> NK, maxage |-> MaxAge(c), maxsize |-> c.max, sweep |-> T]) /\ i' = 1 /\ UNCHANGED c
  \/ /\ i > 0 /\ i <= 2 * Len(c.ent)
     /\ LET j == (i + 1) \div 2
            x == c.ent[j] IN
        IF i % 2 = 1 THEN Step([e |-> "sinv", o |-> j, k |-> x[1], v |-> j, size |-> x[2], t |-> j * 10])
        ELSE Step([e |-> "sret", o |-> j, ok |-> TRUE, flt |-> FALSE, t |-> j * 10, mt |-> j * 10, size |-> x[2]])
     /\ i' = i + 1 /\ UNCHANGED c
  \/ /\ i = 2 * Len(c.ent) + 1 /\ Step([e |-> "tick", t |-> T - 1, flt |-> bad]) /\ i' = i + 1 /\ UNCHANGED c
  \/ /\ i = 2 * Len(c.ent) + 2 /\ Step([e |-> "tick", t |-> T, flt |-> <<>>]) /\ i' = i + 1 /\ UNCHANGED c
SNext == SMove /\ UNCHANGED bad
SSpec == SInit /\ [][SNext]_svars
Ended == i = 2 * Len(c.ent) + 3
Tried == i = 2 * Len(c.ent) + 2
(* what was there, what is left *)
Was == {j \in DOMAIN c.ent : \A h \in DOMAIN c.ent : h > j => c.ent[h][1] # c.ent[j][1]}
Is == {x.cur : x \in UNION {S[k] : k \in DOMAIN S}} \ {0}
Post == Ended =>
  LET gone == Was \ Is
      live == {j \in Was : j > c.cut} IN
  /\ Is \subseteq live
  /\ c.max = 0 => Is = live
  /\ c.max > 0 => Sum(Is) <= c.max
  /\ \A j \in gone \cap live : \A h \in Is : j < h
  (* none is removed needlessly *)
  /\ c.max > 0 => \A j \in gone \cap live : (\A h \in gone \cap live : h <= j) => Sum(Is \cup {j}) > c.max
(* a sweep that could not remove some entries has removed the others *)
Part == Tried /\ bad # <<>> => \A k \in DOMAIN S : \A x \in S[k] : x.cur # 0 /\ x.cur <= c.cut => bad[1] \in {0, k}
Det == ghost = {} => \A k \in DOMAIN S : Cardinality(S[k]) = 1
Out == (i = 0 /\ bad = <<>>) => PrintT("CASE " \o ToJson([ent |-> c.ent, maxage |-> MaxAge(c), maxsize |-> c.max]))
Good == viol = {}
=============================================================================
