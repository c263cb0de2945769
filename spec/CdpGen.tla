------------------------------- MODULE CdpGen --------------------------------
(***************************************************************************)
(* The orders in which a browser may tell about one navigation: the        *)
(* document's request, redirects of it, its response and the DOM of it, the *)
(* reply to the command, and requests for other resources: preloaded by    *)
(* early hints ("pre"), referred to by the document ("sub"), and documents *)
(* of inner frames ("ifr"). Optionally it stops after some of it.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxKinds, Cuts
VARIABLES script, want, cut
Kinds == {"pre", "sub", "ifr"}
Answers(k) == k \o "res"
All(ks, rd) == {"req", "reply", "res", "dom"} \cup (IF rd THEN {"redir"} ELSE {}) \cup ks \cup {Answers(k) : k \in ks}
Told == {script[i] : i \in DOMAIN script}
Before(t) ==
  CASE t = "req" -> {}
    [] t = "redir" -> {"req"}
    [] t = "res" -> {"req", "redir"}
    [] t = "reply" -> {"req"}
    [] t = "dom" -> {"res"}
    [] t = "pre" -> {"req"}
    [] t = "sub" -> {"res"}
    [] t = "ifr" -> {"res"}
    [] t = "preres" -> {"pre"}
    [] t = "subres" -> {"sub"}
    [] t = "ifrres" -> {"ifr"}
Init == script = <<>> /\ cut = -1 /\ \E ks \in SUBSET Kinds, rd \in BOOLEAN : Cardinality(ks) <= MaxKinds /\ want = All(ks, rd)
Tell == cut = -1 /\ \E t \in want \ Told : (Before(t) \cap want) \subseteq Told /\ script' = Append(script, t) /\ UNCHANGED <<want, cut>>
Cut == Cuts /\ cut = -1 /\ "dom" \notin Told /\ cut' = Len(script) /\ UNCHANGED <<script, want>>
Spec == Init /\ [][Tell \/ Cut]_<<script, want, cut>>
(* a document is answered for once, after it was asked for *)
Legal == \A i, j \in DOMAIN script : (script[i] = script[j] => i = j) /\ (script[j] \in Before(script[i]) => j < i)
Out == (Told = want \/ cut >= 0) => PrintT("CASE " \o ToJson([s |-> script, cut |-> cut]))
=============================================================================
