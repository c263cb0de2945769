------------------------------- MODULE ScanObs -------------------------------
(***************************************************************************)
(* C24, C25, C27: scanning and querying documents. A document is a       *)
(* sequence of                                                             *)
(* nodes in document order; node 1 is the document itself. A node has      *)
(*   p    its parent (0 for node 1)                                        *)
(*   k    "d" document, "e" element, "t" text, "c" comment                 *)
(*   tag  cls (sequence of classes), attr (sequence of <<name, value>>)    *)
(*   txt  the bytes of a text or comment                                   *)
(* A selector is a sequence of alternatives, an alternative a sequence of  *)
(* compounds [tag, cls, attr, comb], comb relating a compound to the one   *)
(* before it. A shape describes a Go type:                                 *)
(*   k = "s" string "b" []byte "i" int "u" uint "f" float                  *)
(*       "st" struct (fields f) "sl" slice (element el)                    *)
(*       "no" a type that cannot be scanned                                *)
(* and a field has a selector s, an attribute a ("" for the text), and     *)
(* its shape t. Scalars are reported as bytes, numbers in decimal.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

ToSet(s) == {s[i] : i \in DOMAIN s}

(* --- documents --- *)
RECURSIVE Above(_, _)
Above(d, n) == IF n <= 1 THEN {} ELSE {d[n].p} \cup Above(d, d[n].p)
Inside(d, n) == {m \in DOMAIN d : n \in Above(d, m)}
Elem(d, n) == d[n].k = "e"
HasAttr(nd, a) == \E i \in DOMAIN nd.attr : nd.attr[i][1] = a
(* the value of the first attribute of that name *)
AttrOf(nd, a) == LET I == {i \in DOMAIN nd.attr : nd.attr[i][1] = a} IN
                 IF I = {} THEN <<>> ELSE nd.attr[CHOOSE i \in I : \A j \in I : i <= j][2]
RECURSIVE TextF(_, _, _)
TextF(d, n, i) == IF i > Len(d) THEN <<>>
                  ELSE (IF d[i].k = "t" /\ (i = n \/ n \in Above(d, i)) THEN d[i].txt ELSE <<>>) \o TextF(d, n, i + 1)
Text(d, n) == TextF(d, n, n)

(* --- selectors --- *)
MatchC(nd, c) == /\ c.tag # "" => nd.tag = c.tag
                 /\ c.cls # "" => c.cls \in ToSet(nd.cls)
                 /\ c.attr # "" => HasAttr(nd, c.attr)
Before(d, n) == {m \in DOMAIN d : m < n /\ d[m].p = d[n].p /\ Elem(d, m)}   \* elder sibling elements
RECURSIVE MatchA(_, _, _, _)
MatchA(d, n, alt, i) ==
  /\ Elem(d, n) /\ MatchC(d[n], alt[i])
  /\ i > 1 => CASE alt[i].comb = ">" -> MatchA(d, d[n].p, alt, i - 1)
                [] alt[i].comb = " " -> \E m \in Above(d, n) \ {0} : MatchA(d, m, alt, i - 1)
                [] alt[i].comb = "~" -> \E m \in Before(d, n) : MatchA(d, m, alt, i - 1)
                [] alt[i].comb = "+" -> \E m \in Before(d, n) : (\A o \in Before(d, n) : o <= m) /\ MatchA(d, m, alt, i - 1)
Match(d, n, sel) == \E i \in DOMAIN sel : MatchA(d, n, sel[i], Len(sel[i]))
RECURSIVE AllF(_, _, _, _)
AllF(d, n, sel, i) == IF i > Len(d) THEN <<>>
                      ELSE (IF n \in Above(d, i) /\ Match(d, i, sel) THEN <<i>> ELSE <<>>) \o AllF(d, n, sel, i + 1)
All(d, n, sel) == AllF(d, n, sel, n + 1)   \* inside n, in document order
First(d, n, sel) == LET a == All(d, n, sel) IN IF a = <<>> THEN 0 ELSE a[1]

(* --- scanning --- *)
(* Numbers: an optional sign and digits, a float also with one point. What *)
(* is no number is 0. Numbers too long to be sure of, and other notations, *)
(* may give anything (Whatever).                                                *)
Whatever == <<-1>>
Num0 == <<48>>
Digit(c) == c \in 48..57
Digits(t) == \A i \in DOMAIN t : Digit(t[i])
Sign(t) == t # <<>> /\ t[1] \in {43, 45}
Abs(t) == IF Sign(t) THEN Tail(t) ELSE t
Neg(t) == t # <<>> /\ t[1] = 45
RECURSIVE NoLead(_)
NoLead(t) == IF t # <<>> /\ t[1] = 48 THEN NoLead(Tail(t)) ELSE t
RECURSIVE NoTrail(_)
NoTrail(t) == IF t # <<>> /\ t[Len(t)] = 48 THEN NoTrail(SubSeq(t, 1, Len(t) - 1)) ELSE t
Dec(neg, int, frac) ==
  LET i == NoLead(int)  f == NoTrail(frac)
      m == (IF i = <<>> THEN Num0 ELSE i) \o (IF f = <<>> THEN <<>> ELSE <<46>> \o f) IN
  IF i = <<>> /\ f = <<>> THEN Num0 ELSE IF neg THEN <<45>> \o m ELSE m
Whole(t) == IF t = <<>> \/ ~Digits(t) THEN Num0 ELSE IF Len(t) > 9 THEN Whatever ELSE Dec(FALSE, t, <<>>)
SInt(t) == IF Abs(t) = <<>> \/ ~Digits(Abs(t)) THEN Num0 ELSE IF Len(t) > 10 THEN Whatever ELSE Dec(Neg(t), Abs(t), <<>>)
(* characters other notations of floats are written with: those of *)
(* hexadecimals, exponents, inf, infinity, nan *)
Exotic == {95, 120, 88, 112, 80} \cup 65..70 \cup 97..102 \cup {105, 110, 116, 121, 73, 78, 84, 89}
SFloat(t) ==
  LET b == Abs(t)
      dots == {i \in DOMAIN b : b[i] = 46}
      ds == {i \in DOMAIN b : Digit(b[i])} IN
  IF (\E i \in DOMAIN b : b[i] \in Exotic) THEN Whatever
  ELSE IF ds = {} \/ Cardinality(dots) > 1 \/ Cardinality(ds) + Cardinality(dots) # Len(b) THEN Num0
  ELSE IF Len(b) > 7 THEN Whatever
  ELSE IF dots = {} THEN Dec(Neg(t), b, <<>>)
  ELSE LET p == CHOOSE i \in dots : TRUE IN Dec(Neg(t), SubSeq(b, 1, p - 1), SubSeq(b, p + 1, Len(b)))
Scalar(k, t) == CASE k \in {"s", "b"} -> t
                  [] k = "i" -> SInt(t)
                  [] k = "u" -> Whole(t)
                  [] k = "f" -> SFloat(t)
Scalars == {"s", "b", "i", "u", "f"}

(* What a value of shape t, found at element m (0 if there is none), is. *)
RECURSIVE Value(_, _, _, _)
Field(d, n, f) ==
  IF n = 0 THEN Value(d, 0, f.t, "")
  ELSE IF f.t.k = "sl" THEN LET ms == All(d, n, f.s) IN [i \in DOMAIN ms |-> Value(d, ms[i], f.t.el, f.a)]
  ELSE Value(d, First(d, n, f.s), f.t, f.a)
Value(d, m, t, a) ==
  CASE t.k \in Scalars -> IF m = 0 THEN Scalar(t.k, <<>>)
                          ELSE Scalar(t.k, IF a = "" THEN Text(d, m) ELSE AttrOf(d[m], a))
    [] t.k = "st" -> [i \in DOMAIN t.f |-> Field(d, m, t.f[i])]
    [] t.k = "sl" -> <<>>

(* A reported value against one that may have Whatever in it. *)
RECURSIVE Agree(_, _, _)
Agree(t, v, w) ==
  CASE t.k \in Scalars -> w = Whatever \/ v = w
    [] t.k = "st" -> \A i \in DOMAIN t.f : Agree(t.f[i].t, v[i], w[i])
    [] t.k = "sl" -> Len(v) = Len(w) /\ \A i \in DOMAIN v : Agree(t.el, v[i], w[i])

RECURSIVE Vague(_, _)
Vague(t, w) ==
  CASE t.k \in Scalars -> w = Whatever
    [] t.k = "st" -> \E i \in DOMAIN t.f : Vague(t.f[i].t, w[i])
    [] t.k = "sl" -> \E i \in DOMAIN w : Vague(t.el, w[i])

(* Types that cannot be filled: an unsupported kind somewhere, a slice     *)
(* whose elements no selector selects, a struct without fields, a selector *)
(* that is none.                                                           *)
RECURSIVE Bad(_)
Bad(t) == CASE t.k \in Scalars -> FALSE
            [] t.k = "st" -> t.f = <<>> \/ \E i \in DOMAIN t.f :
                 \/ t.f[i].s = <<>>
                 \/ IF t.f[i].t.k = "sl" THEN t.f[i].t.el.k = "sl" \/ Bad(t.f[i].t.el) ELSE Bad(t.f[i].t)
            [] OTHER -> TRUE

(* Whether an element that itself matches a selector of its own fields     *)
(* counts as inside itself is not said: such cases are not judged.         *)
RECURSIVE Unclear(_, _, _)
UnclearF(d, n, f) == /\ n # 0
                     /\ \/ Match(d, n, f.s)
                        \/ f.t.k = "sl" /\ \E m \in ToSet(All(d, n, f.s)) : Unclear(d, m, f.t.el)
                        \/ f.t.k = "st" /\ First(d, n, f.s) # 0 /\ Unclear(d, First(d, n, f.s), f.t)
Unclear(d, n, t) == t.k = "st" /\ \E i \in DOMAIN t.f : UnclearF(d, n, t.f[i])

U == INSTANCE Uri
(* the href values of the elements, in order *)
RECURSIVE Hrefs(_, _)
Hrefs(d, ns) == IF ns = <<>> THEN <<>>
                ELSE (IF HasAttr(d[ns[1]], "href") THEN <<AttrOf(d[ns[1]], "href")>> ELSE <<>>) \o Hrefs(d, Tail(ns))
AnchorSel == << <<[tag |-> "a", cls |-> "", attr |-> "href", comb |-> ""]>> >>

VARIABLES viol
vars == <<viol>>
Init0 == viol = {}
V(p, c, m) == IF c THEN {} ELSE {<<p, m>>}

(* One scan of node n of document d into a value of shape t. *)
Scan(e) ==
  viol' = viol \cup
    IF Bad(e.t) THEN V("C25", e.err, "a type that cannot be scanned gives no error")
    ELSE IF Unclear(e.d, e.n, e.t) THEN {}
    ELSE V("C25", ~e.err, "scanning a supported type fails")
         \cup V("C25", ~e.err => Agree(e.t, e.v, Value(e.d, e.n, e.t, "")), "scanned value differs from what the selectors select")

(* --- lists --- *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
At(l, i) == IF i >= 0 THEN (IF i < Len(l) THEN <<l[i + 1]>> ELSE <<>>)
            ELSE IF Len(l) + i >= 0 THEN <<l[Len(l) + i + 1]>> ELSE <<>>

(* One operation on a list of nodes l of document d. *)
Op(e) ==
  LET d == e.d  l == e.l
      self == e.op = "query" /\ \E i \in DOMAIN l : Match(d, l[i], e.s) IN
  viol' = viol \cup
    CASE e.op = "query" -> IF self THEN {} ELSE
           V("C27", e.r = Flat([i \in DOMAIN l |-> All(d, l[i], e.s)]), "Query does not give the matching elements inside the list's, in order")
      [] e.op = "is" -> V("C27", e.ok = (\E i \in DOMAIN l : Match(d, l[i], e.s)), "Is is true exactly if some element matches")
      [] e.op = "at" -> V("C27", e.r = At(l, e.i), "At does not give the element of that index, negative ones from the end")
      [] e.op = "text" -> V("C27", e.v = Flat([i \in DOMAIN l |-> Text(d, l[i])]), "Text is not the text of all elements in order")
      [] e.op = "attr" -> V("C27", /\ e.ok = (l # <<>> /\ HasAttr(d[l[1]], e.a))
                                   /\ e.v = IF l = <<>> THEN <<>> ELSE AttrOf(d[l[1]], e.a), "Attr is not that of the first element")
      [] e.op = "html" -> V("C27", e.ok, "HTML does not render the parsed document")
      [] OTHER -> {}

Step(e) ==
  CASE e.e = "begin" -> viol' = {}
    [] e.e = "scan" -> Scan(e)
    [] e.e = "kept" -> viol' = viol \cup V("C25", e.v = e.w, "a scan changes the value an earlier scan gave")
    [] e.e = "links" -> viol' = viol \cup
         V("C24", U!LinksAre(U!Parse(e.base), Hrefs(e.d, All(e.d, 1, IF e.all THEN AnchorSel ELSE e.s)), e.r),
           "the links are not the resolved hrefs of the matching elements")
    [] e.e = "op" -> Op(e)
    [] e.e = "doc" -> viol' = viol \cup {<<e.p, "the page is not the whole document that was served">>}
    [] e.e = "panic" -> viol' = viol \cup {<<e.p, "panics">>}
    [] e.e \in {"stuck", "hang"} -> viol' = viol \cup {<<"C25", "a scan never returns">>}
    [] OTHER -> UNCHANGED vars
=============================================================================
