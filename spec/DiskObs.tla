------------------------------ MODULE DiskObs ------------------------------
(***************************************************************************)
(* The disk store, as seen from its callers and from the file system under *)
(* it.                                                                     *)
(*   C19  what is left after a crash or a failing operation                *)
(*   C20  Store and Load are linearizable, also while entries are evicted  *)
(*   C21  what a sweep removes                                             *)
(*   C22  what a reopened store holds                                      *)
(* Times are milliseconds of virtual time. Keys and values are numbers,    *)
(* value 0 is "nothing".                                                   *)
(*                                                                         *)
(* The file system: a file (inode) has a length as programs see it and is  *)
(* dirty while data written to it has not been synced; a name refers to a  *)
(* file, and until the directory has been synced every file it referred to *)
(* since may be what a crash leaves. A crash keeps for every name one of   *)
(* these, and of a dirty file anything: the synced content, the content    *)
(* written, a part of it.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  cfg,     \* mode, maxage (0: off), maxsize (0: off), sweep (period, 0: off)
  n,       \* events so far
  warm,    \* the opened store has said it is warm
  sess,    \* number of the session
  vals,    \* value -> key, size, when it was stored, in which session, failed or not
  ops,     \* pending calls
  S,       \* key -> the states the store may be in for it
  elig,    \* key -> the values a crash may leave
  dirty,   \* files with unsynced data
  flen,    \* file -> length
  name,    \* name -> the files it may refer to after a crash
  last,    \* name -> the file it refers to
  ghost,   \* values that a sweep failed to remove
  acc,     \* crash -> key -> the values a store reopened after it may hold
  viol
vars == <<cfg, n, warm, sess, vals, ops, S, elig, dirty, flen, name, last, ghost, acc, viol>>
V(p, c, m) == IF c THEN {} ELSE {<<p, m>>}
fsv == <<dirty, flen, name, last>>

Init0 == /\ cfg = [mode |-> "none"] /\ n = 0 /\ warm = FALSE /\ sess = 0 /\ vals = <<>> /\ ops = <<>> /\ S = <<>> /\ elig = <<>>
         /\ dirty = {} /\ flen = <<>> /\ name = <<>> /\ last = <<>> /\ ghost = {} /\ acc = <<>> /\ viol = {}
Begin(e) == /\ cfg' = e /\ n' = 0 /\ warm' = FALSE /\ sess' = 0 /\ vals' = <<>> /\ ops' = <<>>
            /\ S' = [k \in 1..e.keys |-> {[cur |-> 0, app |-> {}, got |-> {}]}]
            /\ elig' = [k \in 1..e.keys |-> {0}]
            /\ dirty' = {} /\ flen' = <<>> /\ name' = <<>> /\ last' = <<>> /\ ghost' = {} /\ acc' = <<>> /\ viol' = {}
Pid == CASE cfg.mode = "crash" -> "C19" [] cfg.mode = "disk" -> "C20" [] cfg.mode = "sweep" -> "C21" [] OTHER -> "C22"

(* ------------------------------------------------- the map and its calls *)
Older(u, v) == vals[u].rt # -1 /\ vals[u].rt < vals[v].t  \* u is in the store for longer than v
Max(X) == IF X = {} THEN 0 ELSE CHOOSE x \in X : \A y \in X : y <= x
RECURSIVE SumMax(_, _, _)
SumMax(K, P, v) == IF K = {} THEN 0 ELSE
  LET k == CHOOSE k \in K : TRUE IN Max({vals[u].size : u \in {u \in P[k] : u # 0 /\ ~Older(u, v)}}) + SumMax(K \ {k}, P, v)
(* may a sweep at time t remove v, when the other keys may hold P? *)
Evictable(v, P, t) ==
  /\ v # 0 /\ cfg.sweep > 0 /\ cfg.mode \in {"disk", "crash"}
  /\ \/ cfg.maxage > 0 /\ t - vals[v].t >= cfg.maxage
     \/ cfg.maxsize > 0 /\ vals[v].size + SumMax({k \in DOMAIN P : k # vals[v].k}, P, v) > cfg.maxsize

Succ(c, k, o, P, t) ==
  {[c EXCEPT !.cur = o[i].v, !.app = @ \cup {i}] : i \in {i \in DOMAIN o : o[i].f = "s" /\ o[i].k = k /\ i \notin c.app}}
  \cup {[c EXCEPT !.got = @ \cup {<<i, c.cur>>}] : i \in {i \in DOMAIN o : o[i].f = "l" /\ o[i].k = k /\ \A g \in c.got : g[1] # i}}
  \cup {[c EXCEPT !.got = @ \cup {<<i, 0>>}] : i \in {i \in DOMAIN o : o[i].f = "l" /\ o[i].k = k /\ o[i].cold
                                                        /\ c.cur # 0 /\ vals[c.cur].sess < sess /\ \A g \in c.got : g[1] # i}}
  \cup (IF Evictable(c.cur, P, t) THEN {[c EXCEPT !.cur = 0]} ELSE {})
RECURSIVE Close(_, _, _, _, _)
Close(X, k, o, P, t) == LET Y == X \cup UNION {Succ(c, k, o, P, t) : c \in X} IN IF Y = X THEN X ELSE Close(Y, k, o, P, t)
(* what each key may hold now *)
Poss(s, o) == [k \in DOMAIN s |-> {c.cur : c \in s[k]} \cup {o[i].v : i \in {i \in DOMAIN o : o[i].f = "s" /\ o[i].k = k}}]
CloseAll(s, o, t) == [k \in DOMAIN s |-> Close(s[k], k, o, Poss(s, o), t)]

(* An operation begins at the earlier possible states and ends in those that
   explain its result. *)
SInv(e) ==
  /\ vals' = (e.v :> [k |-> e.k, size |-> e.size, t |-> e.t, rt |-> -1, mt |-> e.t, sess |-> sess, inv |-> n, ret |-> -1, failed |-> FALSE]) @@ vals
  /\ ops' = (e.o :> [f |-> "s", k |-> e.k, v |-> e.v, cold |-> FALSE]) @@ ops
  /\ S' = [CloseAll(S, ops, e.t) EXCEPT ![e.k] = @]
  /\ elig' = [elig EXCEPT ![e.k] = @ \cup {e.v}]
  /\ UNCHANGED <<cfg, warm, sess, fsv, acc, viol>>
Drop(c, i) == [c EXCEPT !.app = @ \ {i}, !.got = {g \in @ : g[1] # i}]
Without(o, i) == [j \in DOMAIN o \ {i} |-> o[j]]
SRet(e) ==
  LET i == e.o
      k == ops[i].k
      v == ops[i].v
      s == CloseAll(S, ops, e.t)
      r == {c \in s[k] : e.ok => i \in c.app} IN
  /\ S' = [s EXCEPT ![k] = {Drop(c, i) : c \in r}]
  /\ ops' = Without(ops, i)
  /\ vals' = [vals EXCEPT ![v].rt = e.t, ![v].ret = n, ![v].mt = e.mt, ![v].size = IF e.size >= 0 THEN e.size ELSE @, ![v].failed = ~e.ok]
  /\ elig' = IF e.ok THEN [elig EXCEPT ![k] = {u \in @ : IF u = 0 THEN cfg.sweep > 0 /\ cfg.mode # "sweep" ELSE vals[u].ret = -1 \/ vals[u].ret > vals[v].inv}] ELSE elig
  /\ viol' = viol \cup V(Pid, e.ok \/ e.flt, "Store fails although the file system does not")
  /\ UNCHANGED <<cfg, warm, sess, fsv, acc>>
LInv(e) ==
  /\ ops' = (e.o :> [f |-> "l", k |-> e.k, v |-> 0, cold |-> ~warm]) @@ ops
  /\ S' = CloseAll(S, ops, e.t)
  /\ UNCHANGED <<cfg, warm, sess, vals, elig, fsv, acc, viol>>
LRet(e) ==
  LET i == e.o
      k == ops[i].k
      s == CloseAll(S, ops, e.t)
      ok == {c \in s[k] : \E g \in c.got : g[1] = i /\ g[2] \in (IF e.r = "none" THEN {0} ELSE {e.vs[j] : j \in DOMAIN e.vs})}
      fine == e.r \in {"none", "val"} /\ ok # {} IN
  /\ S' = [s EXCEPT ![k] = IF fine THEN {Drop(c, i) : c \in ok} ELSE {Drop(c, i) : c \in s[k]}]
  /\ ops' = Without(ops, i)
  /\ viol' = viol \cup V(Pid, fine, CASE e.r = "err" -> "Load returns an error"
                                      [] e.r = "bad" -> "Load returns a value that was never stored under this key"
                                      [] e.r = "none" -> "Load returns nothing for a stored value"
                                      [] OTHER -> "Load returns a value that is no longer, or not yet, stored")
  /\ UNCHANGED <<cfg, warm, sess, vals, elig, fsv, acc>>

(* A sweep of which nothing else happens at the same time: what it removes.
   If the file system refuses to remove the file of a key (e.flt, 0 if it is
   not known whose file; all are expired in these runs), its entry may still be
   there, until a later sweep. *)
Set(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Sum(_)
Sum(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN vals[x].size + Sum(X \ {x})
Tick(e) ==
  LET now == {c.cur : c \in UNION {S[k] : k \in DOMAIN S}} \ {0}
      exp == {v \in now : cfg.maxage > 0 /\ e.t - vals[v].mt > cfg.maxage}
      kept == {v \in exp : 0 \in Set(e.flt) \/ vals[v].k \in Set(e.flt)}
      left == now \ exp
      over == {v \in left : cfg.maxsize > 0 /\ Sum({u \in left : vals[u].mt >= vals[v].mt}) > cfg.maxsize} IN
  /\ S' = [k \in DOMAIN S |-> {c \in S[k] : c.cur \in kept} \cup {IF c.cur \in exp \cup over THEN [c EXCEPT !.cur = 0] ELSE c : c \in S[k]}]
  /\ ghost' = IF e.flt = <<>> THEN {} ELSE ghost \cup kept
  /\ UNCHANGED <<cfg, warm, sess, vals, ops, elig, fsv, acc, viol>>
Dir(e) ==
  /\ viol' = viol \cup V(Pid, ghost # {} \/ e.n = Cardinality({c.cur : c \in UNION {S[k] : k \in DOMAIN S}} \ {0}), "the directory does not hold exactly the entries left")
  /\ UNCHANGED <<cfg, warm, sess, vals, ops, S, elig, fsv, acc>>

(* --------------------------------------------------------------- sessions *)
Open(e) ==
  /\ warm' = FALSE /\ sess' = sess + 1
  /\ S' = [k \in DOMAIN S |-> S[k] \cup {[cur |-> v, app |-> {}, got |-> {}] :
       v \in {v \in ghost : vals[v].k = k /\ \A u \in DOMAIN vals : vals[u].k = k => vals[u].failed \/ vals[u].inv <= vals[v].inv}}]
  /\ viol' = viol \cup V("C22", e.ok, "Open fails on an existing directory")
  /\ UNCHANGED <<cfg, vals, ops, elig, fsv, acc>>
Warm(e) ==
  /\ warm' = TRUE
  /\ viol' = viol \cup V("C22", e.ok, "Wait does not end")
  /\ UNCHANGED <<cfg, sess, vals, ops, S, elig, fsv, acc>>
Closed(e) ==
  /\ viol' = viol \cup V("C22", e.ok, "Close does not end")
  /\ UNCHANGED <<cfg, warm, sess, vals, ops, S, elig, fsv, acc>>

(* ------------------------------------------------------------ file system *)
Of(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Pos(x) == Of(name, x, {0})
Now(x) == Of(last, x, 0)
FS(e) ==
  /\ CASE e.op = "create" -> /\ dirty' = dirty \ {e.ino} /\ flen' = (e.ino :> 0) @@ flen
                             /\ last' = (e.name :> e.ino) @@ last /\ name' = (e.name :> Pos(e.name) \cup {e.ino}) @@ name
       [] e.op = "write" -> /\ dirty' = dirty \cup {e.ino}
                            /\ flen' = (e.ino :> LET a == Of(flen, e.ino, 0) IN IF e.off + e.n > a THEN e.off + e.n ELSE a) @@ flen
                            /\ UNCHANGED <<last, name>>
       [] e.op = "truncate" -> dirty' = dirty \cup {e.ino} /\ flen' = (e.ino :> e.off) @@ flen /\ UNCHANGED <<last, name>>
       [] e.op = "sync" -> dirty' = dirty \ {e.ino} /\ UNCHANGED <<flen, last, name>>
       [] e.op = "dirsync" -> name' = [x \in DOMAIN name |-> {Now(x)}] /\ UNCHANGED <<flen, last, dirty>>
       [] e.op = "rename" -> /\ last' = (e.name :> 0) @@ (e.to :> Now(e.name)) @@ last
                             /\ name' = (e.name :> Pos(e.name) \cup {0}) @@ (e.to :> Pos(e.to) \cup {Now(e.name)}) @@ name
                             /\ UNCHANGED <<flen, dirty>>
       [] e.op = "link" -> /\ last' = (e.to :> Now(e.name)) @@ last /\ name' = (e.to :> Pos(e.to) \cup {Now(e.name)}) @@ name
                           /\ UNCHANGED <<flen, dirty>>
       [] e.op = "remove" -> /\ last' = (e.name :> 0) @@ last /\ name' = (e.name :> Pos(e.name) \cup {0}) @@ name
                             /\ UNCHANGED <<flen, dirty>>
  /\ UNCHANGED <<cfg, warm, sess, vals, ops, S, elig, acc, viol>>

(* ----------------------------------------------------------------- crashes *)
(* e.img: what is left, as <<name, file, length>> *)
Possible(e) ==
  /\ \A i \in DOMAIN e.img : LET x == e.img[i] IN
       /\ x[2] # 0 /\ x[2] \in Pos(x[1])
       /\ x[2] \notin dirty => x[3] = flen[x[2]]
  /\ \A x \in DOMAIN name : 0 \in name[x] \/ \E i \in DOMAIN e.img : e.img[i][1] = x
Crash(e) ==
  /\ Assert(Possible(e), <<"harness: impossible crash image", e, name, dirty, flen>>)
  /\ acc' = (e.c :> [k \in DOMAIN elig |-> elig[k] \cup (IF cfg.sweep > 0 THEN {0} ELSE {})]) @@ acc
  /\ UNCHANGED <<cfg, warm, sess, vals, ops, S, elig, fsv, viol>>
Recov(e) ==
  LET ok == acc[e.c][e.k] IN
  /\ viol' = viol \cup (CASE e.r = "err" -> {<<"C19", "after a crash, Load returns an error">>}
                          [] e.r = "bad" -> {<<"C19", "after a crash, Load returns a truncated, mixed or foreign value">>}
                          [] e.r = "none" -> V("C19", 0 \in ok, "after a crash, a stored value is lost")
                          [] OTHER -> V("C19", \E j \in DOMAIN e.vs : e.vs[j] \in ok, "after a crash, Load returns a value that had been replaced"))
  /\ UNCHANGED <<cfg, warm, sess, vals, ops, S, elig, fsv, acc>>
(* the system goes on with what crash e.c left *)
Reboot(e) ==
  /\ S' = [k \in DOMAIN S |-> {[cur |-> v, app |-> {}, got |-> {}] : v \in acc[e.c][k]}]
  /\ vals' = [v \in DOMAIN vals |-> IF vals[v].ret = -1 THEN [vals[v] EXCEPT !.ret = n, !.rt = e.t] ELSE vals[v]]
  /\ ops' = <<>> /\ dirty' = {}
  /\ flen' = [f \in {e.img[i][2] : i \in DOMAIN e.img} |-> LET i == CHOOSE i \in DOMAIN e.img : e.img[i][2] = f IN e.img[i][3]]
  /\ last' = [x \in {e.img[i][1] : i \in DOMAIN e.img} |-> LET i == CHOOSE i \in DOMAIN e.img : e.img[i][1] = x IN e.img[i][2]]
  /\ name' = [x \in DOMAIN last' |-> {last'[x]}]
  /\ UNCHANGED <<cfg, warm, sess, elig, acc, viol>>
(* nothing is pending: what Load returned is what the store holds *)
Pin(e) ==
  /\ elig' = [elig EXCEPT ![e.k] = {v \in @ : IF v = 0 THEN e.r = "none" \/ (cfg.sweep > 0 /\ cfg.mode # "sweep") ELSE e.r = "val" /\ \E j \in DOMAIN e.vs : e.vs[j] = v}]
  /\ UNCHANGED <<cfg, warm, sess, vals, ops, S, fsv, acc, viol>>

Step(e) ==
  /\ IF e.e = "begin" THEN TRUE ELSE n' = n + 1
  /\ e.e \notin {"begin", "tick"} => UNCHANGED ghost
  /\ CASE e.e = "begin" -> Begin(e)
       [] e.e = "open" -> Open(e)
       [] e.e = "warm" -> Warm(e)
       [] e.e = "closed" -> Closed(e)
       [] e.e = "sinv" -> SInv(e)
       [] e.e = "sret" -> SRet(e)
       [] e.e = "linv" -> LInv(e)
       [] e.e = "lret" -> LRet(e)
       [] e.e = "tick" -> Tick(e)
       [] e.e = "dir" -> Dir(e)
       [] e.e = "fs" -> FS(e)
       [] e.e = "crash" -> Crash(e)
       [] e.e = "recov" -> Recov(e)
       [] e.e = "reboot" -> Reboot(e)
       [] e.e = "pin" -> Pin(e)
       [] e.e = "hang" -> /\ viol' = viol \cup {<<IF cfg.mode = "reopen" THEN "C22" ELSE Pid, "a call does not return">>}
                          /\ UNCHANGED <<cfg, warm, sess, vals, ops, S, elig, fsv, acc>>
       [] OTHER -> UNCHANGED <<cfg, warm, sess, vals, ops, S, elig, fsv, acc, viol>>
=============================================================================
