-------------------------------- MODULE Uri ---------------------------------
(***************************************************************************)
(* URI references over byte sequences, after RFC 3986: parsing (appendix   *)
(* B), validity (section 3), resolution against a base (section 5.2), and  *)
(* equality up to what no reader can tell apart: letter case of the        *)
(* scheme, empty query and fragment, empty port, dot segments, escapes     *)
(* that a writer has to add.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Colon == 58  Slash == 47  At == 64  Quest == 63  Hash == 35  Pct == 37  Dot == 46  LBr == 91  RBr == 93

Min(S) == CHOOSE i \in S : \A j \in S : i <= j
Max(S) == CHOOSE i \in S : \A j \in S : i >= j
(* the first byte of C in s, 0 if there is none *)
First(s, C) == LET I == {i \in DOMAIN s : s[i] \in C} IN IF I = {} THEN 0 ELSE Min(I)
Last(s, C) == LET I == {i \in DOMAIN s : s[i] \in C} IN IF I = {} THEN 0 ELSE Max(I)
Upto(s, i) == IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
From(s, i) == IF i = 0 THEN <<>> ELSE SubSeq(s, i + 1, Len(s))

Upper(b) == b \in 65..90
Alpha(b) == Upper(b) \/ b \in 97..122
Digit(b) == b \in 48..57
Hex(b) == Digit(b) \/ b \in 65..70 \/ b \in 97..102
HexV(b) == IF Digit(b) THEN b - 48 ELSE IF Upper(b) THEN b - 55 ELSE b - 87
HexD(v) == IF v < 10 THEN 48 + v ELSE 55 + v
Low(s) == [i \in DOMAIN s |-> IF Upper(s[i]) THEN s[i] + 32 ELSE s[i]]
Unreserved(b) == Alpha(b) \/ Digit(b) \/ b \in {45, 46, 95, 126}
SubDelim(b) == b \in {33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61}
PChar(b) == Unreserved(b) \/ SubDelim(b) \/ b \in {Colon, At}

(* --- parsing --- *)
IsScheme(s) == s # <<>> /\ Alpha(s[1]) /\ \A i \in DOMAIN s : Alpha(s[i]) \/ Digit(s[i]) \/ s[i] \in {43, 45, 46}
Starts(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
Parse(x) ==
  LET h == First(x, {Hash})         s1 == Upto(x, h)
      q == First(s1, {Quest})       s2 == Upto(s1, q)
      c == First(s2, {Colon, Slash})
      sch == c # 0 /\ s2[c] = Colon /\ IsScheme(SubSeq(s2, 1, c - 1))
      s3 == IF sch THEN From(s2, c) ELSE s2
      au == Starts(s3, <<Slash, Slash>>)
      s4 == IF au THEN SubSeq(s3, 3, Len(s3)) ELSE s3
      p == IF au THEN First(s4, {Slash}) ELSE 1 IN
  [ scheme |-> IF sch THEN Low(SubSeq(s2, 1, c - 1)) ELSE <<>>,
    isauth |-> au, auth |-> IF au THEN Upto(s4, p) ELSE <<>>,
    path |-> IF au THEN (IF p = 0 THEN <<>> ELSE SubSeq(s4, p, Len(s4))) ELSE s3,
    isq |-> q # 0, query |-> From(s1, q),
    isf |-> h # 0, frag |-> From(x, h),
    bad |-> ~sch /\ c # 0 /\ s2[c] = Colon ]     \* a colon where only a scheme may have one

(* --- authority --- *)
HostPort(a) == LET i == Last(a, {At}) IN SubSeq(a, i + 1, Len(a))
User(a) == LET i == Last(a, {At}) IN SubSeq(a, 1, i - 1)
PortAt(hp) == LET c == Last(hp, {Colon}) IN IF c > Last(hp, {RBr}) THEN c ELSE 0
Host(a) == LET hp == HostPort(a) IN Upto(hp, PortAt(hp))
Port(a) == LET hp == HostPort(a) IN From(hp, PortAt(hp))
PlainHost(h) == \/ \A i \in DOMAIN h : Alpha(h[i]) \/ Digit(h[i]) \/ h[i] \in {45, 46}
                \/ /\ Len(h) > 3 /\ h[1] = LBr /\ h[Len(h)] = RBr
                   /\ \A i \in 2..Len(h) - 1 : Hex(h[i]) \/ h[i] = Colon
PlainUser(u) == \A i \in DOMAIN u : Unreserved(u[i]) \/ u[i] = Colon
Digits(s) == \A i \in DOMAIN s : Digit(s[i])

(* --- dot segments (5.2.4) --- *)
Butlast(o) == LET i == Last(o, {Slash}) IN IF i = 0 THEN <<>> ELSE SubSeq(o, 1, i - 1)
RECURSIVE RemDots(_, _)
RemDots(in, out) ==
  CASE in = <<>> -> out
    [] Starts(in, <<Dot, Dot, Slash>>) -> RemDots(SubSeq(in, 4, Len(in)), out)
    [] Starts(in, <<Dot, Slash>>) -> RemDots(SubSeq(in, 3, Len(in)), out)
    [] Starts(in, <<Slash, Dot, Slash>>) -> RemDots(SubSeq(in, 3, Len(in)), out)
    [] in = <<Slash, Dot>> -> RemDots(<<Slash>>, out)
    [] Starts(in, <<Slash, Dot, Dot, Slash>>) -> RemDots(SubSeq(in, 4, Len(in)), Butlast(out))
    [] in = <<Slash, Dot, Dot>> -> RemDots(<<Slash>>, Butlast(out))
    [] in = <<Dot>> \/ in = <<Dot, Dot>> -> out
    [] OTHER -> LET i == First(Tail(in), {Slash}) IN      \* one segment
         IF i = 0 THEN out \o in ELSE RemDots(SubSeq(in, i + 1, Len(in)), out \o SubSeq(in, 1, i))
NoDots(p) == RemDots(p, <<>>)

(* --- resolution (5.2.2) of a parsed reference r against a parsed base b --- *)
Merge(b, p) == IF b.isauth /\ b.path = <<>> THEN <<Slash>> \o p
               ELSE SubSeq(b.path, 1, Last(b.path, {Slash})) \o p
Resolve(b, r) ==
  IF r.scheme # <<>> THEN [r EXCEPT !.path = NoDots(@)]
  ELSE IF r.isauth THEN [r EXCEPT !.path = NoDots(@), !.scheme = b.scheme]
  ELSE [ scheme |-> b.scheme, isauth |-> b.isauth, auth |-> b.auth, bad |-> r.bad,
         path |-> IF r.path = <<>> THEN b.path
                  ELSE IF r.path[1] = Slash THEN NoDots(r.path) ELSE NoDots(Merge(b, r.path)),
         isq |-> IF r.path = <<>> /\ ~r.isq THEN b.isq ELSE r.isq,
         query |-> IF r.path = <<>> /\ ~r.isq THEN b.query ELSE r.query,
         isf |-> r.isf, frag |-> r.frag ]
Unparse(u) == (IF u.scheme # <<>> THEN u.scheme \o <<Colon>> ELSE <<>>)
              \o (IF u.isauth THEN <<Slash, Slash>> \o u.auth ELSE <<>>) \o u.path
              \o (IF u.isq THEN <<Quest>> \o u.query ELSE <<>>)
              \o (IF u.isf THEN <<Hash>> \o u.frag ELSE <<>>)

(* --- links --- *)
Http == <<104, 116, 116, 112>>
Https == Http \o <<115>>
BadPct(s) == \E i \in DOMAIN s : s[i] = Pct /\ ~(i + 2 <= Len(s) /\ Hex(s[i + 1]) /\ Hex(s[i + 2]))
Control(s) == \E i \in DOMAIN s : s[i] < 32 \/ s[i] = 127
Plain(s) == \A i \in DOMAIN s : PChar(s[i]) \/ s[i] \in {Slash, Quest, Pct}
(* a path with characters that have to be escaped but no escapes *)
Escapable(s) == Plain(s) \/ \A i \in DOMAIN s : s[i] # Pct /\ (PChar(s[i]) \/ s[i] = Slash \/ s[i] >= 128)

(* Whether href, on a page served from base, is a link: "yes", "no", or    *)
(* "open" where readers differ (white space, sloppy characters, ...).      *)
Link(base, href) ==
  LET r == Parse(href)  u == Resolve(base, r) IN
  CASE r.scheme # <<>> /\ r.scheme \notin {Http, Https} -> "no"
    [] Control(href) \/ (\E i \in DOMAIN href : href[i] = 32) -> "open"
    [] r.bad -> "no"
    [] BadPct(r.path) -> "no"
    [] r.scheme # <<>> /\ ~r.isauth -> "no"
    [] r.isauth /\ r.scheme = <<>> /\ r.auth = <<>> -> "open"
    [] r.isauth /\ Host(r.auth) = <<>> -> "no"
    [] r.isauth /\ PlainHost(Host(r.auth)) /\ ~Digits(Port(r.auth)) -> "no"
    [] r.isauth /\ ~(PlainHost(Host(r.auth)) /\ PlainUser(User(r.auth))) -> "open"
    [] ~Escapable(r.path) \/ ~Plain(r.query) \/ BadPct(r.query) \/ ~Plain(r.frag) \/ BadPct(r.frag) -> "open"
    [] OTHER -> "yes"

(* --- equality of written URLs --- *)
RECURSIVE EscF(_, _)
EscF(s, i) == IF i > Len(s) THEN <<>>
              ELSE IF s[i] = Pct /\ i + 2 <= Len(s) /\ Hex(s[i + 1]) /\ Hex(s[i + 2])
                   THEN LET v == 16 * HexV(s[i + 1]) + HexV(s[i + 2]) IN
                        (IF Unreserved(v) THEN <<v>> ELSE <<Pct, HexD(v \div 16), HexD(v % 16)>>) \o EscF(s, i + 3)
              ELSE (IF PChar(s[i]) \/ s[i] = Slash THEN <<s[i]>> ELSE <<Pct, HexD(s[i] \div 16), HexD(s[i] % 16)>>) \o EscF(s, i + 1)
RECURSIVE OneSlash(_)
OneSlash(p) == IF Starts(p, <<Slash, Slash>>) THEN OneSlash(Tail(p)) ELSE p
Canon(u) == [ scheme |-> u.scheme, user |-> User(u.auth), host |-> Host(u.auth), port |-> Port(u.auth),
              path |-> LET p == OneSlash(NoDots(EscF(u.path, 1))) IN IF p = <<>> THEN <<Slash>> ELSE p,
              query |-> u.query ]
Same(written, u) == LET w == Parse(written) IN
                    /\ w.isauth /\ Canon(w) = Canon(u)
                    /\ (u.isf /\ u.frag # <<>>) => w.frag = u.frag

(* got are exactly the links among hrefs, in order *)
RECURSIVE LinksAre(_, _, _)
LinksAre(base, hrefs, got) ==
  IF hrefs = <<>> THEN got = <<>>
  ELSE LET h == hrefs[1]  l == Link(base, h) IN
    \/ l # "yes" /\ LinksAre(base, Tail(hrefs), got)
    \/ l = "yes" /\ got # <<>> /\ Same(got[1], Resolve(base, Parse(h))) /\ LinksAre(base, Tail(hrefs), Tail(got))
    \/ l = "open" /\ got # <<>> /\ LinksAre(base, Tail(hrefs), Tail(got))
=============================================================================
