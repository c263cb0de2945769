------------------------------ MODULE HttpGen -------------------------------
(***************************************************************************)
(* The policy tables as cases for the real code: what a response carries,  *)
(* how old it is when it is asked for again, what that request carries and *)
(* how the origin answers then. What must happen is decided by HttpObs on  *)
(* the recorded trace.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Strats, Flags, MaxAges, Exps, MinFresh, MaxStale, ReqAges, Ages, Answers
VARIABLE c
NO == 0 - 1
NONE == 0 - 2000000000
None == {NO}
Opt(n, v) == IF v = NO THEN <<>> ELSE IF v = NO - 1 THEN <<<<n, NO>>>> ELSE <<<<n, v>>>>
Flag(n, f, s) == IF n \in s THEN <<<<f, NO>>>> ELSE <<>>
(* -1: absent, -2: without a value *)
QStrats == {"rfc", "agg"}
QFlags == {{}, {"qn"}, {"rn"}, {"oic"}, {"ns"}, {"qn", "oic"}, {"sie"}}
TFlags == QFlags \cup {{"rn", "oic"}, {"qn", "sie"}, {"rn", "sie"}, {"qn", "rn"}}
QMaxAges == {NO, 0, 2}
TMaxAges == {NO, 0, 1, 2}
QExps == {NONE, 1000, 0}
TExps == {NONE, 0 - 1000, 3000}
QFresh == {NO, 1}
TFresh == {NO, 2}
QStale == {NO, NO - 1, 1}
TStale == {NO, 0, 2}
QReqAges == {NO, 0, 1}
TReqAges == {NO, 1, 3}
QAges == {0, 1000, 1999, 2000}
TAges == {0, 999, 1000, 2000, 2001, 4000}
QAnswers == {304}
TAnswers == {0, 500, 302}
Case(s, f, ma, ex, mf, ms, ra, ag, an) ==
  [strat |-> s, life |-> 2000,
   resp |-> Opt("max-age", ma) \o Flag("rn", "no-cache", f) \o Flag("ns", "no-store", f),
   req |-> Opt("max-age", ra) \o Opt("min-fresh", mf) \o Opt("max-stale", ms) \o Flag("qn", "no-cache", f) \o Flag("oic", "only-if-cached", f) \o Flag("sie", "stale-if-error", f),
   exp |-> ex, date |-> 0, age |-> ag, ans |-> an]
Init == c \in {Case(s, f, ma, ex, mf, ms, ra, ag, an) : s \in Strats, f \in Flags, ma \in MaxAges, ex \in Exps, mf \in MinFresh, ms \in MaxStale, ra \in ReqAges, ag \in Ages, an \in Answers}
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Out == PrintT("CASE " \o ToJson(c))
=============================================================================
