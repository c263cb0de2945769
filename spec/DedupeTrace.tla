----------------------------- MODULE DedupeTrace -----------------------------
(* Recorded runs of the real code, checked step by step against DedupeObs. *)
EXTENDS DedupeObs, TLC, Json, IOUtils
VARIABLES l, run
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == Init0 /\ l = 1 /\ run = 0
TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ Step(Trace[l])
  /\ run' = IF Trace[l].e = "begin" THEN Trace[l].run ELSE run
  /\ (viol' # {} /\ viol' # viol) => PrintT("VIOL " \o ToJson([run |-> run', l |-> l, v |-> viol' \ viol]))
TSpec == TInit /\ [][TNext]_<<vars, l, run>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
