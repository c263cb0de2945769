-------------------------------- MODULE Disk --------------------------------
(***************************************************************************)
(* The design of the disk store at the granularity of file operations:     *)
(* Store writes and syncs a temporary file, renames it and updates the     *)
(* index in one critical section, and syncs the directory; a sweep selects *)
(* and removes in one critical section; the warm-up adds what it finds and *)
(* is not indexed yet, a file at a time. Any file operation of a Store may *)
(* fail and the system may crash at any time; a store opened after that    *)
(* holds the files a crash left under the names of keys.                   *)
(*                                                                         *)
(* Breaks names deviations, each of which must show as a violation:        *)
(*   nosync, nodirsync, earlyrename, ignorewrite, latesync - in Store      *)
(*   raceadd   - rename and index update are separate                      *)
(*   racesweep - a sweep selects and removes in separate steps             *)
(*   racewarm  - the warm-up looks at a file and adds it in separate steps *)
(***************************************************************************)
EXTENDS DiskObs
CONSTANTS Threads, NKeys, Plan, Cfg, MaxT, Crashes, Faults, Sessions, Breaks
VARIABLES
  th,      \* Store and Load threads
  ready,   \* key -> [on, mt, size]: the index
  has,     \* file -> the value written to it
  t,       \* time
  no,      \* calls made
  nino,    \* files made
  sw,      \* what the sweeper has selected
  wu,      \* keys the warm-up has yet to look at / has looked at
  ph,      \* "run", "crashed" (recov events to come), "reboot"
  im,      \* the image chosen
  nc
dvars == <<th, ready, has, t, no, nino, sw, wu, ph, im, nc>>
Size == 2
KeyName(k) == "k" \o ToString(k)
TmpName(o) == "t" \o ToString(o)
None == [on |-> FALSE, mt |-> 0]
Idle == [pc |-> "idle", o |-> 0, k |-> 1, v |-> 0, i |-> 0, flt |-> FALSE, r |-> 0, mt |-> 0]
Keys == 1..NKeys
Sym == Permutations(Threads)

DInit == /\ Init0 /\ th = [p \in Threads |-> Idle] /\ ready = [k \in Keys |-> None] /\ has = <<>> /\ t = 1 /\ no = 0 /\ nino = 0
         /\ sw = {} /\ wu = [todo |-> {}, seen |-> {}] /\ ph = "boot" /\ im = <<>> /\ nc = 0
U(x) == UNCHANGED x
Boot == /\ ph = "boot" /\ Begin(Cfg @@ [keys |-> NKeys]) /\ ph' = "open" /\ U(<<th, ready, has, t, no, nino, sw, wu, im, nc>>)
(* the files under the names of keys *)
OnDisk == {k \in Keys : Now(KeyName(k)) # 0}
OpenD == /\ ph = "open" /\ Step([e |-> "open", ok |-> TRUE, t |-> t])
         /\ ready' = [k \in Keys |-> None] /\ wu' = [todo |-> OnDisk, seen |-> {}] /\ sw' = {} /\ ph' = "run"
         /\ U(<<th, has, t, no, nino, im, nc>>)
Mt(k) == vals[has[Now(KeyName(k))]].t
WarmUp == /\ ph = "run"
          /\ \/ \E k \in wu.todo :
                IF "racewarm" \in Breaks THEN wu' = [todo |-> wu.todo \ {k}, seen |-> IF k \in OnDisk THEN wu.seen \cup {k} ELSE wu.seen] /\ U(<<vars, ready>>)
                ELSE /\ wu' = [wu EXCEPT !.todo = @ \ {k}]
                     /\ ready' = IF ready[k].on \/ k \notin OnDisk THEN ready ELSE [ready EXCEPT ![k] = [on |-> TRUE, mt |-> Mt(k)]]
                     /\ U(vars)
             \/ /\ wu.todo = {} /\ wu.seen # {} /\ \E k \in wu.seen :
                  /\ wu' = [wu EXCEPT !.seen = @ \ {k}]
                  /\ ready' = IF ready[k].on THEN ready ELSE [ready EXCEPT ![k] = [on |-> TRUE, mt |-> IF k \in OnDisk THEN Mt(k) ELSE 0]]
                  /\ U(vars)
             \/ /\ wu.todo = {} /\ wu.seen = {} /\ ~warm /\ Step([e |-> "warm", ok |-> TRUE]) /\ U(<<wu, ready>>)
          /\ U(<<th, has, t, no, nino, sw, ph, im, nc>>)

Go(p, f) == th' = [th EXCEPT ![p] = f]
FsOp(op, nm, to, i, off, m) == Step([e |-> "fs", op |-> op, name |-> nm, to |-> to, ino |-> i, off |-> off, n |-> m])
Call == /\ ph = "run" /\ no < Len(Plan)
        /\ \E p \in Threads : /\ th[p].pc = "idle"
             /\ LET w == Plan[no + 1] IN
                IF w[1] = "s" THEN
                  /\ Go(p, [Idle EXCEPT !.pc = "create", !.o = no + 1, !.k = w[2], !.v = no + 1])
                  /\ Step([e |-> "sinv", o |-> no + 1, k |-> w[2], v |-> no + 1, size |-> Size, t |-> t])
                ELSE
                  /\ Go(p, [Idle EXCEPT !.pc = "read", !.o = no + 1, !.k = w[2]])
                  /\ Step([e |-> "linv", o |-> no + 1, k |-> w[2], t |-> t])
        /\ no' = no + 1
        /\ U(<<ready, has, t, nino, sw, wu, ph, im, nc>>)

(* what follows step s in a Store *)
After(s) == CASE s = "create" -> "write"
              [] s = "write" -> IF "nosync" \in Breaks \/ "latesync" \in Breaks \/ "earlyrename" \in Breaks THEN "rename" ELSE "sync"
              [] s = "sync" -> IF "earlyrename" \in Breaks \/ "latesync" \in Breaks THEN "dirsync" ELSE "rename"
              [] s = "rename" -> IF "raceadd" \in Breaks THEN "index" ELSE IF "earlyrename" \in Breaks \/ "latesync" \in Breaks THEN "sync"
                                 ELSE IF "nodirsync" \in Breaks THEN "ret" ELSE "dirsync"
              [] s = "index" -> "dirsync"
              [] s = "dirsync" -> "ret"
Indexed(k, m) == [ready EXCEPT ![k] = [on |-> TRUE, mt |-> m]]
Work(p) ==
  LET x == th[p]
      next == [x EXCEPT !.pc = After(x.pc)] IN
  /\ ph = "run" /\ x.pc # "idle"
  /\ CASE x.pc = "create" -> /\ nino' = nino + 1 /\ has' = (nino' :> x.v) @@ has /\ Go(p, [next EXCEPT !.i = nino'])
                             /\ FsOp("create", TmpName(x.o), "", nino', 0, 0) /\ U(ready)
       [] x.pc = "write" -> FsOp("write", TmpName(x.o), "", x.i, 0, Size) /\ Go(p, [next EXCEPT !.mt = t]) /\ U(<<nino, has, ready>>)
       [] x.pc = "sync" -> FsOp("sync", TmpName(x.o), "", x.i, 0, 0) /\ Go(p, next) /\ U(<<nino, has, ready>>)
       [] x.pc = "rename" -> /\ FsOp("rename", TmpName(x.o), KeyName(x.k), 0, 0, 0) /\ Go(p, next) /\ U(<<nino, has>>)
                             /\ ready' = IF "raceadd" \in Breaks THEN ready ELSE Indexed(x.k, x.mt)
       [] x.pc = "index" -> Go(p, next) /\ ready' = Indexed(x.k, x.mt) /\ U(<<vars, nino, has>>)
       [] x.pc = "dirsync" -> FsOp("dirsync", "", "", 0, 0, 0) /\ Go(p, next) /\ U(<<nino, has, ready>>)
       [] x.pc = "clean" -> FsOp("remove", TmpName(x.o), "", 0, 0, 0) /\ Go(p, [x EXCEPT !.pc = "fail"]) /\ U(<<nino, has, ready>>)
       [] x.pc \in {"ret", "fail"} -> /\ Step([e |-> "sret", o |-> x.o, ok |-> x.pc = "ret", flt |-> x.flt, t |-> t, mt |-> t, size |-> -1])
                                      /\ Go(p, Idle) /\ U(<<nino, has, ready>>)
       [] x.pc = "read" -> /\ LET i == Now(KeyName(x.k)) IN
                                Go(p, [x EXCEPT !.pc = "lret", !.r = IF ~ready[x.k].on THEN 0 ELSE IF i = 0 THEN -1 ELSE IF flen[i] = Size THEN has[i] ELSE -2])
                           /\ U(<<vars, nino, has, ready>>)
       [] x.pc = "lret" -> /\ Step([e |-> "lret", o |-> x.o, t |-> t, r |-> CASE x.r = 0 -> "none" [] x.r = -1 -> "err" [] x.r = -2 -> "bad" [] OTHER -> "val",
                                    vs |-> IF x.r > 0 THEN <<x.r>> ELSE <<>>])
                           /\ Go(p, Idle) /\ U(<<nino, has, ready>>)
  /\ U(<<t, no, sw, wu, ph, im, nc>>)
(* an operation of a Store fails *)
Fault(p) ==
  LET x == th[p]
      bad == [x EXCEPT !.flt = TRUE, !.pc = IF x.pc = "create" \/ x.pc = "dirsync" THEN "fail" ELSE "clean"] IN
  /\ ph = "run" /\ Faults /\ x.pc \in {"create", "write", "sync", "rename", "dirsync"} /\ ~x.flt
  /\ IF x.pc = "write" THEN \E m \in 0..Size - 1 :
          /\ Go(p, IF "ignorewrite" \in Breaks THEN [x EXCEPT !.flt = TRUE, !.pc = After("write")] ELSE bad)
          /\ FsOp("write", TmpName(x.o), "", x.i, 0, m)
     ELSE Go(p, bad) /\ U(vars)
  /\ U(<<ready, has, t, no, nino, sw, wu, ph, im, nc>>)

Expired == {k \in Keys : ready[k].on /\ t - ready[k].mt > Cfg.maxage}
Remove(k) == /\ IF Now(KeyName(k)) = 0 THEN U(<<vars, ready>>)
                ELSE FsOp("remove", KeyName(k), "", 0, 0, 0) /\ ready' = [ready EXCEPT ![k] = None]
Sweep == /\ ph = "run" /\ Cfg.sweep > 0
         /\ IF "racesweep" \in Breaks THEN
              \/ sw = {} /\ Expired # {} /\ sw' = Expired /\ U(<<vars, ready>>)
              \/ sw # {} /\ LET k == CHOOSE k \in sw : TRUE IN sw' = sw \ {k} /\ (IF ready[k].on THEN Remove(k) ELSE U(<<vars, ready>>))
            ELSE \E k \in Expired : Remove(k) /\ U(sw)
         /\ U(<<th, has, t, no, nino, wu, ph, im, nc>>)
Time == /\ ph = "run" /\ t < MaxT /\ t' = t + 1 /\ U(<<vars, th, ready, has, no, nino, sw, wu, ph, im, nc>>)

(* -------------------------------------------------------------- crashes *)
Names == DOMAIN name
Images == {f \in [Names -> UNION {name[x] : x \in Names}] : \A x \in Names : f[x] \in name[x]}
RECURSIVE Seq2(_, _, _)
Seq2(X, f, g) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN
                   (IF f[x] = 0 THEN <<>> ELSE <<<<x, f[x], g[f[x]]>>>>) \o Seq2(X \ {x}, f, g)
CrashD == /\ ph = "run" /\ nc < Crashes
          /\ \E f \in Images : \E g \in [DOMAIN flen -> 0..Size] :
               /\ \A i \in DOMAIN flen : g[i] = flen[i] \/ (i \in dirty /\ g[i] <= flen[i])
               /\ LET s == Seq2(Names, f, g) IN Step([e |-> "crash", c |-> nc + 1, img |-> s]) /\ im' = [l |-> s, k |-> 1]
          /\ nc' = nc + 1 /\ ph' = "crashed" /\ U(<<th, ready, has, t, no, nino, sw, wu>>)
ImgOf(k) == LET X == {i \in DOMAIN im.l : im.l[i][1] = KeyName(k)} IN
            IF X = {} THEN <<"", 0, 0>> ELSE im.l[CHOOSE i \in X : TRUE]
RecovD == /\ ph = "crashed"
          /\ IF im.k > NKeys THEN /\ Step([e |-> "reboot", c |-> nc, img |-> im.l, t |-> t]) /\ ph' = IF sess < Sessions THEN "open" ELSE "done"
                                 /\ th' = [p \in Threads |-> Idle] /\ im' = <<>>
             ELSE /\ LET x == ImgOf(im.k) IN
                     Step([e |-> "recov", c |-> nc, k |-> im.k, r |-> IF x[2] = 0 THEN "none" ELSE IF x[3] = Size THEN "val" ELSE "bad",
                           vs |-> IF x[2] = 0 THEN <<>> ELSE <<has[x[2]]>>])
                  /\ im' = [im EXCEPT !.k = @ + 1] /\ U(<<ph, th>>)
          /\ U(<<ready, has, t, no, nino, sw, wu, nc>>)
(* a regular end *)
CloseD == /\ ph = "run" /\ sess < Sessions /\ \A p \in Threads : th[p].pc = "idle"
          /\ wu.todo = {} /\ wu.seen = {}
          /\ Step([e |-> "closed", ok |-> TRUE]) /\ ph' = "open"
          /\ U(<<th, ready, has, t, no, nino, sw, wu, im, nc>>)
DNext == Boot \/ OpenD \/ WarmUp \/ Call \/ (\E p \in Threads : Work(p) \/ Fault(p)) \/ Sweep \/ Time \/ CrashD \/ RecovD \/ CloseD
DSpec == DInit /\ [][DNext]_<<vars, dvars>>
Good == viol = {}
(* the index names existing files only *)
Index == ph = "run" => \A k \in Keys : ready[k].on => Now(KeyName(k)) # 0
View == <<cfg, warm, sess, [v \in DOMAIN vals |-> <<vals[v].t, vals[v].rt, vals[v].sess, vals[v].k, vals[v].failed, vals[v].ret = -1, {u \in DOMAIN vals : vals[u].ret > vals[v].inv}>>],
          ops, S, elig, dirty, flen, name, last, acc, viol, dvars>>
PlanS == <<<<"s", 1>>, <<"s", 1>>, <<"l", 1>>, <<"l", 1>>>>
PlanL == <<<<"s", 1>>, <<"l", 1>>, <<"s", 1>>, <<"l", 1>>, <<"l", 1>>>>
PlanC == <<<<"s", 1>>, <<"s", 1>>, <<"s", 1>>>>
PlanB == <<<<"s", 1>>, <<"s", 1>>>>
PlanCC == <<<<"s", 1>>, <<"l", 1>>, <<"s", 1>>, <<"s", 1>>>>
PlanT == <<<<"s", 1>>, <<"s", 2>>, <<"l", 1>>, <<"s", 1>>, <<"l", 2>>>>
CfgDisk == [mode |-> "disk", maxage |-> 1, maxsize |-> 0, sweep |-> 1]
CfgCrash == [mode |-> "crash", maxage |-> 0, maxsize |-> 0, sweep |-> 0]
=============================================================================
