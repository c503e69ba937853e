------------------------------ MODULE BuildTrace ------------------------------
(* Checks recorded builds against Build. traces.json is an array of           *)
(*   {"deps": [[task..]..], "w": workers, "unstart": [task..],                *)
(*    "skip": [task..] that have nothing to do (they are up to date),         *)
(*    "ev": [{"k": kind, "t": task, "ok": bool, "c": "ok"|"error"}..],        *)
(*    "log": [{"t": task, "ok": bool, "ran": bool, "out": [[task,k]..]}..],   *)
(*    "exp": [[[task,k]..]..]}                                                *)
(* ev: S start, E end, R everything that can happen by itself has happened,   *)
(*     X exit, H hang, M malformed log. "log" is looked at with the X event.  *)
(* Props holds the properties to enforce; the guards of the others are off.   *)
EXTENDS Build, Sequences, TLC, Json

CONSTANT Props

Traces == JsonDeserialize("traces.json")

VARIABLES ti, l, dead

tvars == <<bDeps, bWorkers, bSt, bExit, ti, l, dead>>

Set(s) == {s[i] : i \in DOMAIN s}
T == Traces[ti]
Ev == T.ev[l]

TInit ==
  /\ ti \in DOMAIN Traces
  /\ l = 1
  /\ dead = FALSE
  /\ bDeps = [t \in DOMAIN Traces[ti].deps |-> Set(Traces[ti].deps[t])]
  /\ bWorkers = Traces[ti].w
  /\ bSt = [t \in DOMAIN Traces[ti].deps |-> IF t \in Set(Traces[ti].unstart) THEN "failed"
                                           ELSE IF t \in Set(Traces[ti].skip) THEN "ok" ELSE "idle"]
  /\ bExit = "none"

V(prop, ok, text) == IF prop \in Props /\ ~ok THEN {prop \o ": " \o text} ELSE {}

(* C19. Every task that was started has one entry; entries are in dependency  *)
(* order, tell the outcome, and are followed by the output of their task.     *)
Log == T.log
Entries(t) == {i \in DOMAIN Log : Log[i].t = t}
Seen == {t \in Tasks : bSt[t] # "idle"}
Bad(t) == t \in Failed
Skip == Set(T.skip)
(* Tasks with nothing to do may be left out once something has failed. *)
LogOnce    == \A t \in Seen \ (Set(T.unstart) \cup (IF Failed = {} THEN {} ELSE Skip)) : Cardinality(Entries(t)) = 1
LogNoGhost == \A i \in DOMAIN Log : Log[i].t \in Seen \ Set(T.unstart) /\ Cardinality(Entries(Log[i].t)) = 1
LogTruth   == \A i \in DOMAIN Log : (Log[i].ran <=> Log[i].t \notin Skip) /\ (Log[i].ok <=> ~Bad(Log[i].t))
LogOrder   == \A i \in DOMAIN Log : \A d \in bDeps[Log[i].t] : \E j \in 1..(i - 1) : Log[j].t = d
LogOutput  == \A i \in DOMAIN Log : Log[i].out = T.exp[Log[i].t]

Violations ==
  CASE Ev.k = "S" -> V("C01", DepsBuilt(Ev.t), "started before a task it depends on was done")
                     \cup V("C02", NoFailedDep(Ev.t), "started although a task it depends on failed")
                     \cup V("C04", NotStartedYet(Ev.t), "started twice")
                     \cup V("C17", WorkerFree, "more recipes at a time than workers")
                     \cup V("C04", bExit = "none", "started after exit")
    [] Ev.k = "E" -> {}
    [] Ev.k = "R" -> V("C17", WorkersBusy, "a recipe that could run was not started")
    [] Ev.k = "X" -> V("C02", ExitTellsFailure(Ev.c), "exit status does not tell whether a recipe failed")
                     \cup V("C04", CompleteAtExit(Ev.c), "exit with status 0 before everything was done")
                     \cup V("C19", LogOnce, "no entry, or more than one, for a task")
                     \cup V("C19", LogNoGhost, "an entry for something that was not done")
                     \cup V("C19", LogTruth, "an entry does not tell the outcome")
                     \cup V("C19", LogOrder, "an entry before that of a task it depends on")
                     \cup V("C19", LogOutput, "output is not right after the entry of its task")
    [] Ev.k = "H" -> V("C03", FALSE, "maike2 waits for something that cannot happen")
    [] Ev.k = "M" -> V("C19", FALSE, "the log is not intact")
    [] OTHER -> {"bad event"}

Step ==
  /\ ~dead /\ l <= Len(T.ev)
  /\ l' = l + 1
  /\ UNCHANGED <<ti, bDeps, bWorkers>>
  /\ IF Violations = {}
     THEN /\ UNCHANGED dead
          /\ bSt' = CASE Ev.k = "S" -> [bSt EXCEPT ![Ev.t] = "running"]
                      [] Ev.k = "E" -> [bSt EXCEPT ![Ev.t] = IF Ev.ok /\ bSt[Ev.t] # "failed" THEN "ok" ELSE "failed"]
                      [] OTHER -> bSt
          /\ bExit' = IF Ev.k = "X" THEN Ev.c ELSE bExit
     ELSE /\ PrintT("REJECT " \o ToJson([i |-> ti, l |-> l, why |-> Violations]))
          /\ dead' = TRUE
          /\ UNCHANGED <<bSt, bExit>>

(* Accepted traces are counted, so that a trace that was not looked at shows. *)
Accept ==
  /\ ~dead /\ l = Len(T.ev) + 1
  /\ PrintT("ACCEPT " \o ToJson(ti))
  /\ dead' = TRUE
  /\ UNCHANGED <<bDeps, bWorkers, bSt, bExit, ti, l>>

TNext == Step \/ Accept
TSpec == TInit /\ [][TNext]_tvars
==============================================================================
