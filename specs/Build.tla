-------------------------------- MODULE Build --------------------------------
(* A build as seen from outside: recipe processes start and end, and maike2   *)
(* exits. One task per source file (or folder) that has targets.              *)
(*                                                                            *)
(* The guards are named after the property they state, so that the trace      *)
(* specification (BuildTrace) can enforce them one by one, and the scheduler  *)
(* (Sched) can be shown to refine all of them.                                *)
EXTENDS Naturals, FiniteSets

VARIABLES
  bDeps,     \* task -> the tasks it depends on, directly or indirectly
  bWorkers,  \* number of workers
  bSt,       \* task -> "idle" | "running" | "ok" | "failed"
  bExit      \* "none" until maike2 exits, then "ok" or "error"

bvars == <<bDeps, bWorkers, bSt, bExit>>

Tasks   == DOMAIN bSt
Running == {t \in Tasks : bSt[t] = "running"}
Failed  == {t \in Tasks : bSt[t] = "failed"}
Ready   == {t \in Tasks : bSt[t] = "idle" /\ \A d \in bDeps[t] : bSt[d] = "ok"}

(* C01 *)
DepsBuilt(t)      == \A d \in bDeps[t] : bSt[d] \notin {"idle", "running"}
(* C02 *)
NoFailedDep(t)    == \A d \in bDeps[t] : bSt[d] # "failed"
ExitTellsFailure(c) == (c = "error") <=> (Failed # {})
(* C04 *)
NotStartedYet(t)  == bSt[t] = "idle"
CompleteAtExit(c) == c = "ok" => \A t \in Tasks : bSt[t] \notin {"idle", "running"}
(* C17 *)
WorkerFree        == Cardinality(Running) < bWorkers
Min(a, b)         == IF a < b THEN a ELSE b
WorkersBusy       == Failed # {} \/
                     Cardinality(Running) = Min(bWorkers, Cardinality(Running \cup Ready))

Start(t) ==
  /\ bExit = "none"
  /\ DepsBuilt(t) /\ NoFailedDep(t) /\ NotStartedYet(t) /\ WorkerFree
  /\ bSt' = [bSt EXCEPT ![t] = "running"]
  /\ UNCHANGED <<bDeps, bWorkers, bExit>>

(* The targets are up to date, or the recipe cannot be started. *)
DoneAtOnce(t, s) ==
  /\ bExit = "none"
  /\ DepsBuilt(t) /\ NoFailedDep(t) /\ NotStartedYet(t) /\ WorkerFree
  /\ s \in {"ok", "failed"}
  /\ bSt' = [bSt EXCEPT ![t] = s]
  /\ UNCHANGED <<bDeps, bWorkers, bExit>>

End(t, s) ==
  /\ bSt[t] = "running"
  /\ s \in {"ok", "failed"}
  /\ bSt' = [bSt EXCEPT ![t] = s]
  /\ UNCHANGED <<bDeps, bWorkers, bExit>>

Exit(c) ==
  /\ bExit = "none"
  /\ Running = {}
  /\ ExitTellsFailure(c) /\ CompleteAtExit(c)
  /\ bExit' = c
  /\ UNCHANGED <<bDeps, bWorkers, bSt>>

BNext ==
  \/ \E t \in Tasks : Start(t)
  \/ \E t \in Tasks, s \in {"ok", "failed"} : DoneAtOnce(t, s) \/ End(t, s)
  \/ \E c \in {"ok", "error"} : Exit(c)

BInit ==
  /\ bSt = [t \in DOMAIN bDeps |-> "idle"]
  /\ bExit = "none"

BSpec == BInit /\ [][BNext]_bvars

(* What the guards add up to. *)
OrderInv == \A t \in Tasks : bSt[t] # "idle" => \A d \in bDeps[t] : bSt[d] = "ok"
ExitInv  == /\ bExit = "ok" => \A t \in Tasks : bSt[t] = "ok"
            /\ bExit = "error" => Failed # {}
            /\ bExit # "none" => Running = {}
CapInv   == Cardinality(Running) <= bWorkers
==============================================================================
