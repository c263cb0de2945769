------------------------------ MODULE NormObs -------------------------------
(***************************************************************************)
(* C12: URL normalization over byte sequences. Parse follows RFC 3986.     *)
(* Fine(s) identifies spellings that must become the same URL; Coarse(s)   *)
(* identifies what must stay different (it forgets more: also escapes of   *)
(* reserved characters, about whose spelling the property says nothing).   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Colon == 58 Slash == 47 At == 64 Quest == 63 Hash == 35 Pct == 37 Amp == 38 Dot == 46 LBr == 91 RBr == 93

RECURSIVE IdxF(_, _, _)
IdxF(s, c, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE IdxF(s, c, i + 1)
Idx(s, c) == IdxF(s, c, 1)
RECURSIVE LastF(_, _, _)
LastF(s, c, i) == IF i = 0 THEN 0 ELSE IF s[i] = c THEN i ELSE LastF(s, c, i - 1)
LastIdx(s, c) == LastF(s, c, Len(s))
Before(s, i) == IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
After(s, i) == IF i = 0 THEN <<>> ELSE SubSeq(s, i + 1, Len(s))
RECURSIVE Split(_, _)
Split(s, c) == LET i == Idx(s, c) IN IF i = 0 THEN <<s>> ELSE <<Before(s, i)>> \o Split(After(s, i), c)

IsUpper(b) == b \in 65..90
IsLower(b) == b \in 97..122
IsDigit(b) == b \in 48..57
Low(b) == IF IsUpper(b) THEN b + 32 ELSE b
Lower(s) == [i \in DOMAIN s |-> Low(s[i])]
IsHex(b) == IsDigit(b) \/ b \in 65..70 \/ b \in 97..102
HexV(b) == IF IsDigit(b) THEN b - 48 ELSE Low(b) - 87
Unreserved(b) == IsUpper(b) \/ IsLower(b) \/ IsDigit(b) \/ b \in {45, 46, 95, 126}

(* decode percent escapes; bytes outside keep get 1000 added *)
RECURSIVE Dec(_, _, _)
Dec(s, i, all) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = Pct /\ i + 2 <= Len(s) /\ IsHex(s[i+1]) /\ IsHex(s[i+2])
       THEN LET v == 16 * HexV(s[i+1]) + HexV(s[i+2]) IN
            <<IF all \/ Unreserved(v) THEN v ELSE 1000 + v>> \o Dec(s, i + 3, all)
       ELSE <<s[i]>> \o Dec(s, i + 1, all)
Decode(s) == Dec(s, 1, TRUE)
DecodeU(s) == Dec(s, 1, FALSE)

RECURSIVE Clean(_, _, _)
Clean(segs, i, out) ==
  IF i > Len(segs) THEN out
  ELSE CASE segs[i] = <<>> \/ segs[i] = <<Dot>> -> Clean(segs, i + 1, out)
         [] segs[i] = <<Dot, Dot>> -> Clean(segs, i + 1, IF out = <<>> THEN <<>> ELSE SubSeq(out, 1, Len(out) - 1))
         [] OTHER -> Clean(segs, i + 1, Append(out, segs[i]))
Segs(p) == Clean(Split(p, Slash), 1, <<>>)

Bag(s) == [p \in {s[i] : i \in DOMAIN s} |-> Cardinality({i \in DOMAIN s : s[i] = p})]
Params(q) == IF q = <<>> THEN <<>> ELSE Split(q, Amp)
RECURSIVE LeqF(_, _, _)
LeqF(a, b, i) == IF i > Len(a) THEN TRUE ELSE IF i > Len(b) THEN FALSE
                 ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LeqF(a, b, i + 1)
Leq(a, b) == LeqF(a, b, 1)

Parse(s) ==
  LET h == Idx(s, Hash)
      s1 == Before(s, h)
      qi == Idx(s1, Quest)
      m == Before(s1, qi)
      ci == Idx(m, Colon)
      rest == SubSeq(m, ci + 3, Len(m))
      si == Idx(rest, Slash)
      auth == Before(rest, si)
      ai == LastIdx(auth, At)
      hp == IF ai = 0 THEN auth ELSE After(auth, ai)
      br == Len(hp) > 0 /\ hp[1] = LBr
      ri == IF br THEN LastIdx(hp, RBr) ELSE 0
      pi == IF br THEN (IF ri < Len(hp) THEN ri + 1 ELSE 0) ELSE LastIdx(hp, Colon)
  IN [scheme |-> Before(m, ci), hasuser |-> ai > 0, user |-> IF ai > 0 THEN Before(auth, ai) ELSE <<>>,
      host |-> Before(hp, pi), hasport |-> pi > 0, port |-> After(hp, pi),
      path |-> IF si = 0 THEN <<>> ELSE SubSeq(rest, si, Len(rest)),
      hasq |-> qi > 0, query |-> After(s1, qi), hash |-> h > 0]

Http == <<104, 116, 116, 112>>
Https == <<104, 116, 116, 112, 115>>
Default(p) == (Lower(p.scheme) = Http /\ p.port = <<56, 48>>) \/ (Lower(p.scheme) = Https /\ p.port = <<52, 52, 51>>)

UserKey(u) == LET i == Idx(u, Colon) IN <<i > 0, Decode(Before(u, i)), Decode(After(u, i))>>
Fine(s) == LET p == Parse(s) IN
  <<Lower(p.scheme), <<p.hasuser, p.user>>, Lower(p.host), IF Default(p) \/ ~p.hasport THEN <<FALSE, <<>>>> ELSE <<TRUE, p.port>>,
    LET d == DecodeU(p.path) IN IF \E i \in DOMAIN d : d[i] = 1000 + Slash THEN <<"slash", d>> ELSE <<"segs", Segs(d)>>,
    Bag(Params(p.query))>>
(* An escaped slash may be read as a slash or not: the two keys. *)
Plain(segs) == [i \in DOMAIN segs |-> [j \in DOMAIN segs[i] |-> segs[i][j] % 1000]]
Coarse(s) == LET p == Parse(s) IN
  {<<Lower(p.scheme), UserKey(p.user), Lower(p.host), IF Default(p) THEN <<>> ELSE p.port, path, Bag(Params(p.query))>> :
     path \in {Segs(Decode(p.path)), Plain(Segs(DecodeU(p.path)))}}

RECURSIVE EscOK(_, _)
EscOK(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE IF s[i] # Pct THEN EscOK(s, i + 1)
  ELSE /\ i + 2 <= Len(s) /\ IsHex(s[i+1]) /\ IsHex(s[i+2])
       /\ ~IsLower(s[i+1]) /\ ~IsLower(s[i+2])
       /\ ~Unreserved(16 * HexV(s[i+1]) + HexV(s[i+2]))
       /\ EscOK(s, i + 3)

(* What is wrong with the normal form s; an empty set if nothing. *)
Faults(s) ==
  LET p == Parse(s)
      segs == Split(p.path, Slash)
      ps == Params(p.query)
      F(c, m) == IF c THEN {} ELSE {m} IN
  F(p.scheme \in {Http, Https}, "scheme not lower-case http(s)")
  \cup F(Lower(p.host) = p.host, "host not lower-case")
  \cup F(~Default(p), "default port kept")
  \cup F(p.path # <<>> /\ p.path[1] = Slash, "path not absolute")
  \cup F(p.path = <<Slash>> \/ \A i \in 2..Len(segs) : segs[i] \notin {<<>>, <<Dot>>, <<Dot, Dot>>}, "dot segment, duplicate or trailing slash")
  \cup F(EscOK(p.path, 1), "path escapes not in normal form")
  \cup F(\A i \in 1..(Len(ps) - 1) : Leq(ps[i], ps[i + 1]), "query not sorted")
  \cup F(p.hasq => p.query # <<>>, "empty query kept")
  \cup F(~p.hash, "fragment kept")

(* The specification's own normalizer, used by the design model. *)
HexD(v) == IF v < 10 THEN 48 + v ELSE 55 + v
RECURSIVE Enc(_, _)
Enc(s, i) == IF i > Len(s) THEN <<>>
             ELSE (IF s[i] >= 1000 THEN <<Pct, HexD((s[i] - 1000) \div 16), HexD((s[i] - 1000) % 16)>> ELSE <<s[i]>>) \o Enc(s, i + 1)
RECURSIVE JoinF(_, _, _)
JoinF(ss, c, i) == IF i > Len(ss) THEN <<>> ELSE (IF i > 1 THEN <<c>> ELSE <<>>) \o ss[i] \o JoinF(ss, c, i + 1)
Join(ss, c) == JoinF(ss, c, 1)
Normal(s) ==
  LET p == Parse(s)
      segs == Segs(DecodeU(p.path))
      ps == SortSeq(Params(p.query), Leq) IN
  Lower(p.scheme) \o <<Colon, Slash, Slash>> \o (IF p.hasuser THEN p.user \o <<At>> ELSE <<>>) \o Lower(p.host)
  \o (IF p.hasport /\ ~Default(p) THEN <<Colon>> \o p.port ELSE <<>>)
  \o (IF segs = <<>> THEN <<Slash>> ELSE <<Slash>> \o Join([i \in DOMAIN segs |-> Enc(segs[i], 1)], Slash))
  \o (IF p.query = <<>> THEN <<>> ELSE <<Quest>> \o Join(ps, Amp))

VARIABLES viol
vars == <<viol>>
Init0 == viol = {}

(* One batch: in[i] was given, out[i] queued, again[i] what queueing out[i]
   gives, paths[i] the path field of what was queued. *)
Batch(e) ==
  LET D == DOMAIN e.in
      V(c, m) == IF c THEN {} ELSE {<<"C12", m>>}
      fine == [i \in D |-> Fine(e.in[i])]
      coarse == [i \in D |-> Coarse(e.in[i])] IN
  viol' = UNION {{<<"C12", m>> : m \in Faults(e.out[i])} : i \in D}
    \cup V(\A i \in D : Coarse(e.out[i]) \cap coarse[i] # {}, "normalization changed the URL itself")
    \cup V(e.again = e.out, "normalizing twice changes the URL")
    \cup V(\A i, j \in D : fine[i] = fine[j] => e.out[i] = e.out[j], "equivalent spellings stay different")
    \cup V(\A i, j \in D : coarse[i] \cap coarse[j] = {} => e.out[i] # e.out[j], "different URLs become the same")
    \cup V(\A i \in D : e.paths[i] = Decode(Parse(e.out[i]).path), "path field not that of the normal form")

Step(e) ==
  CASE e.e = "begin" -> viol' = {}
    [] e.e = "norm" -> Batch(e)
    [] OTHER -> UNCHANGED vars
=============================================================================
