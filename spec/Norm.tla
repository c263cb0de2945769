-------------------------------- MODULE Norm --------------------------------
(***************************************************************************)
(* All spellings of a small grammar: the specification's normalizer gives  *)
(* normal forms, is idempotent, and agrees with Fine and Coarse. With      *)
(* Emit the spellings are printed and replayed into the real code.         *)
(***************************************************************************)
EXTENDS NormObs, Json
CONSTANTS MaxSegs, Auths, Segments, Queries, Emit
VARIABLES in, other
Str == [h |-> <<104,116,116,112,58,47,47>>, H |-> <<72,84,116,80,58,47,47>>, s |-> <<104,116,116,112,115,58,47,47>>]
QAuths == {Str.h \o <<97>>, Str.H \o <<65>>, Str.h \o <<97,58,56,48>>, Str.s \o <<97,58,52,52,51>>, Str.s \o <<97,58,56,48>>,
           Str.h \o <<91,58,58,49,93,58,56,48>>, Str.h \o <<91,58,58,49,93>>, Str.h \o <<117,64,97,58,56>>}
QSegments == {<<>>, <<46>>, <<46,46>>, <<97>>, <<37,54,49>>, <<65>>, <<37,50,101>>, <<37,50,69,46>>, <<98,37,50,102,99>>, <<37,99,51,37,65,57>>, <<37,55,101>>, <<37,50,53,54,49>>}
FewSegments == {<<>>, <<46,46>>, <<97>>, <<37,54,49>>, <<98,37,50,102,99>>}
QQueries == {<<>>, <<Quest>>, <<Quest,98,61,50,Amp,97,61,49>>, <<Quest,97,61,49,Amp,98,61,50>>, <<Hash,102>>, <<Quest,97,Amp,97,Hash>>, <<Quest,97>>}
RECURSIVE Paths(_)
Paths(n) == IF n = 0 THEN {<<>>} ELSE Paths(n - 1) \cup {p \o <<Slash>> \o g : p \in Paths(n - 1), g \in Segments}
Spellings == {a \o p \o q : a \in Auths, p \in Paths(MaxSegs), q \in Queries}
(* a chain of one state per spelling *)
DInit == Init0 /\ in \in Spellings /\ other = <<>>
DNext == other = <<>> /\ other' = Normal(in) /\ UNCHANGED <<in, viol>>
DSpec == DInit /\ [][DNext]_<<in, other, viol>>
IsNormal == Faults(Normal(in)) = {}
Idempotent == Normal(Normal(in)) = Normal(in)
Same == /\ Coarse(Normal(in)) \cap Coarse(in) # {}
        /\ Fine(in)[5][1] = "segs" => Fine(Normal(in)) = Fine(in)
Out == Emit => PrintT("CASE " \o ToJson(in))
=============================================================================
