------------------------------- MODULE Links --------------------------------
(***************************************************************************)
(* References built from parts, resolved against bases: the examples of    *)
(* RFC 3986 section 5.4, facts any resolution has to keep, and the cases   *)
(* the real code is run on.                                                *)
(***************************************************************************)
EXTENDS Uri, Json, TLC
CONSTANTS Deep, Emit     \* more parts; print the cases
VARIABLES bs, hr, done

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |-> 31 + (CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c)]
B(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

(* --- RFC 3986, 5.4.1 and 5.4.2 --- *)
RfcBase == Parse(B("http://a/b/c/d;p?q"))
Examples == {
  <<"g:h", "g:h">>, <<"g", "http://a/b/c/g">>, <<"./g", "http://a/b/c/g">>, <<"g/", "http://a/b/c/g/">>,
  <<"/g", "http://a/g">>, <<"//g", "http://g">>, <<"?y", "http://a/b/c/d;p?y">>, <<"g?y", "http://a/b/c/g?y">>,
  <<"#s", "http://a/b/c/d;p?q#s">>, <<"g#s", "http://a/b/c/g#s">>, <<"g?y#s", "http://a/b/c/g?y#s">>,
  <<";x", "http://a/b/c/;x">>, <<"g;x", "http://a/b/c/g;x">>, <<"g;x?y#s", "http://a/b/c/g;x?y#s">>,
  <<"", "http://a/b/c/d;p?q">>, <<".", "http://a/b/c/">>, <<"./", "http://a/b/c/">>, <<"..", "http://a/b/">>,
  <<"../", "http://a/b/">>, <<"../g", "http://a/b/g">>, <<"../..", "http://a/">>, <<"../../", "http://a/">>,
  <<"../../g", "http://a/g">>, <<"../../../g", "http://a/g">>, <<"../../../../g", "http://a/g">>,
  <<"/./g", "http://a/g">>, <<"/../g", "http://a/g">>, <<"g.", "http://a/b/c/g.">>, <<".g", "http://a/b/c/.g">>,
  <<"g..", "http://a/b/c/g..">>, <<"..g", "http://a/b/c/..g">>, <<"./../g", "http://a/b/g">>, <<"./g/.", "http://a/b/c/g/">>,
  <<"g/./h", "http://a/b/c/g/h">>, <<"g/../h", "http://a/b/c/h">>, <<"g;x=1/./y", "http://a/b/c/g;x=1/y">>,
  <<"g;x=1/../y", "http://a/b/c/y">>, <<"g?y/./x", "http://a/b/c/g?y/./x">>, <<"g?y/../x", "http://a/b/c/g?y/../x">>,
  <<"g#s/./x", "http://a/b/c/g#s/./x">>, <<"g#s/../x", "http://a/b/c/g#s/../x">>, <<"http:g", "http:g">> }
ASSUME \A x \in Examples : Unparse(Resolve(RfcBase, Parse(B(x[1])))) = B(x[2])
ASSUME \A x \in Examples : Link(RfcBase, B(x[1])) = IF x[1] \in {"g:h", "http:g"} THEN "no" ELSE "yes"

(* --- cases --- *)
Bases == {"http://a.example", "http://a.example/d/p?k=v", "https://u@b.example:8443/d//e/"}
         \cup IF Deep THEN {"http://[::1]:8080/x", "http://a.example/"} ELSE {}
Starters == {"", "http:", "HTTPS:", "mailto:", "javascript:"} \cup IF Deep THEN {"1:", "http", ":", "ftp:", "data:"} ELSE {}
Auths == {"", "//b.example", "//", "//:80", "//u:p@B.Example:8080"} \cup IF Deep THEN {"//[::1]", "//b.example:x", "//u@", "//b.example:"} ELSE {}
Paths == {"", "/", "x", "../x", "/a/./b/../c", "..", "./x:y", "/%41%2f", "/%zz"}
         \cup IF Deep THEN {"x:y", "/..//x", "a//b", "../../../x/.", "/;p=1", "/%", ".."} ELSE {}
Tails == {"", "?", "?q=/../x", "#f", "?a=b&c#"} \cup IF Deep THEN {"#", "?q#f?/", "?x?y"} ELSE {}
Hrefs == {B(s) \o B(a) \o B(p) \o B(t) : s \in Starters, a \in Auths, p \in {q \in Paths : TRUE}, t \in Tails}

DInit == bs \in {B(b) : b \in Bases} /\ hr \in Hrefs /\ done = FALSE
DNext == done = FALSE /\ done' = TRUE /\ UNCHANGED <<bs, hr>>
DSpec == DInit /\ [][DNext]_<<bs, hr, done>>
Base == Parse(bs)
Ref == Parse(hr)
Res == Resolve(Base, Ref)
L == Link(Base, hr)
(* written and read again, a reference is the same *)
RoundTrip == Unparse(Ref) = [i \in DOMAIN hr |-> IF Ref.scheme # <<>> /\ i <= Len(Ref.scheme) THEN Low(hr)[i] ELSE hr[i]]
(* links are absolute, and resolving them again changes nothing *)
Absolute == L = "yes" => /\ Res.scheme \in {Http, Https} /\ Res.isauth /\ Host(Res.auth) # <<>>
                         /\ Same(Unparse(Res), Res)
                         /\ Link(Base, Unparse(Res)) = "yes"
                         /\ Same(Unparse(Resolve(Base, Parse(Unparse(Res)))), Res)
(* where it is not said otherwise it is as in the base *)
Inherits == (L = "yes" /\ Ref.scheme = <<>>) => /\ Res.scheme = Base.scheme
                                               /\ (~Ref.isauth => Res.auth = Base.auth)
(* no dot segments are left *)
Clean == (L = "yes" /\ Ref.path # <<>>) =>
           \A i \in DOMAIN Res.path : (Res.path[i] = Slash) =>
              LET s == SubSeq(Res.path, i + 1, Len(Res.path))  j == First(s, {Slash})  seg == Upto(s, j) IN seg \notin {<<Dot>>, <<Dot, Dot>>}
(* what the page says has to hold for one list of links *)
OneLink == LET got == <<Unparse(Res)>> IN
           /\ L = "yes" => LinksAre(Base, <<hr>>, got) /\ ~LinksAre(Base, <<hr>>, <<>>)
           /\ L = "no" => ~LinksAre(Base, <<hr>>, got) /\ LinksAre(Base, <<hr>>, <<>>)
           /\ L = "yes" => LinksAre(Base, <<B("mailto:x"), hr, B("/z")>>, got \o <<Unparse(Resolve(Base, Parse(B("/z"))))>>)
Out == (Emit /\ done) => PrintT("CASE " \o ToJson([b |-> bs, h |-> hr]))
=============================================================================
