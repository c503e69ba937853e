-------------------------------- MODULE Sched --------------------------------
(* The scheduler as the code has it (core/db/task_list.cpp, core/db/task.cpp, *)
(* core/sched): the main loop over the list of pending tasks, the queue and   *)
(* the workers of the thread pool, the event, and the counter of tasks in     *)
(* flight. One action per critical section.                                   *)
(*                                                                            *)
(* Mutant selects a deliberately wrong variant; "none" is the code. The       *)
(* mutants show that the properties can fail (see checks/design_mutants.py).  *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS N, MaxW, Outcomes, Mutant

Task == 1..N

VARIABLES
  deps,   \* task -> set of tasks, transitively closed, acyclic (only smaller tasks)
  nw,     \* number of workers
  out,    \* task -> what its recipe will do: "skip" | "ok" | "fail" | "throw"
  list,   \* m_tasks: pending tasks in topological order
  it,     \* the iterator of the main loop
  mpc,    \* main thread: "loop" | "wait" | "drain" | "done"
  queue,  \* queue of the thread pool
  evt,    \* the event
  cnt,    \* the counter of tasks in flight
  res,    \* m_results
  wpc,    \* worker -> step
  wt,     \* worker -> task
  proc,   \* task -> "none" | "running" | "ended": its recipe process, for the observer
  eptr,   \* an exception is kept in the pool
  log,    \* entries of the compilation log
  exit

vars == <<deps, nw, out, list, it, mpc, queue, evt, cnt, res, wpc, wt, proc, eptr, log, exit>>

Worker == 1..MaxW

Closed(d) == \A t \in Task : \A x \in d[t] : d[x] \subseteq d[t]

Init ==
  /\ deps \in {d \in [Task -> SUBSET Task] : (\A t \in Task : \A x \in d[t] : x < t) /\ Closed(d)}
  /\ nw \in 1..MaxW
  /\ out \in [Task -> Outcomes]
  /\ list = [i \in Task |-> i]
  /\ it = 1
  /\ mpc = "loop"
  /\ queue = <<>>
  /\ evt = FALSE
  /\ cnt = 0
  /\ res = [t \in Task |-> "pending"]
  /\ wpc = [w \in Worker |-> "idle"]
  /\ wt = [w \in Worker |-> 0]
  /\ proc = [t \in Task |-> "none"]
  /\ eptr = FALSE
  /\ log = <<>>
  /\ exit = "none"

----------------------------------------------------------------------------
(* The main thread *)

Status(t) == IF \E d \in deps[t] : res[d] = "fail" /\ \A x \in deps[t] : res[x] = "pending" => x > d
             THEN "fail"
             ELSE IF \E d \in deps[t] : res[d] = "pending" THEN "pending" ELSE "ok"

RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

(* wrap_iterator: at the end of the list, start over and wait for the event *)
Wrap(l, i) == IF i = Len(l) + 1 THEN it' = 1 /\ mpc' = "wait" ELSE it' = i /\ mpc' = "loop"

Look ==
  /\ mpc = "loop" /\ list # <<>>
  /\ LET t == list[it]
         s == IF Mutant = "ignore_pending" /\ Status(t) = "pending" THEN "ok" ELSE Status(t)
     IN CASE s = "pending" -> /\ Wrap(list, it + 1)
                              /\ UNCHANGED <<list, queue, cnt>>
          [] s = "fail"    -> /\ list' = (IF Mutant = "skip_failed" THEN RemoveAt(list, it) ELSE <<>>)
                              /\ IF Mutant = "skip_failed" THEN Wrap(list', it) ELSE UNCHANGED <<it, mpc>>
                              /\ UNCHANGED <<queue, cnt>>
          [] s = "ok"      -> /\ queue' = Append(queue, t)
                              /\ cnt' = cnt + 1
                              /\ list' = RemoveAt(list, it)
                              /\ Wrap(list', it)
  /\ UNCHANGED <<deps, nw, out, evt, res, wpc, wt, proc, eptr, log, exit>>

Wait ==
  /\ mpc = "wait" /\ evt
  /\ evt' = FALSE /\ mpc' = "loop"
  /\ UNCHANGED <<deps, nw, out, list, it, queue, cnt, res, wpc, wt, proc, eptr, log, exit>>

LoopEnd ==
  /\ mpc = "loop" /\ list = <<>>
  /\ mpc' = "drain"
  /\ UNCHANGED <<deps, nw, out, list, it, queue, evt, cnt, res, wpc, wt, proc, eptr, log, exit>>

Drain ==
  /\ mpc = "drain"
  /\ cnt = 0 \/ Mutant = "no_drain"
  /\ mpc' = "done"
  /\ exit' = IF eptr THEN "error" ELSE "ok"
  /\ UNCHANGED <<deps, nw, out, list, it, queue, evt, cnt, res, wpc, wt, proc, eptr, log>>

----------------------------------------------------------------------------
(* A worker *)

WStep(w, from, to) == w <= nw /\ wpc[w] = from /\ wpc' = [wpc EXCEPT ![w] = to]

Take(w) ==
  /\ queue # <<>>
  /\ WStep(w, "idle", "begin")
  /\ wt' = [wt EXCEPT ![w] = Head(queue)]
  /\ queue' = Tail(queue)
  /\ UNCHANGED <<deps, nw, out, list, it, mpc, evt, cnt, res, proc, eptr, log, exit>>

Begin(w) ==
  LET t == wt[w] IN
  /\ wpc[w] = "begin"
  /\ CASE out[t] = "skip"  -> WStep(w, "begin", "log") /\ proc' = [proc EXCEPT ![t] = "ended"]
       [] out[t] = "throw" -> WStep(w, "begin", "publish") /\ proc' = [proc EXCEPT ![t] = "ended"]
       [] OTHER            -> WStep(w, "begin", "run") /\ proc' = [proc EXCEPT ![t] = "running"]
  /\ UNCHANGED <<deps, nw, out, list, it, mpc, queue, evt, cnt, res, wt, eptr, log, exit>>

EndProc(w) ==
  /\ WStep(w, "run", "log")
  /\ proc' = [proc EXCEPT ![wt[w]] = "ended"]
  /\ UNCHANGED <<deps, nw, out, list, it, mpc, queue, evt, cnt, res, wt, eptr, log, exit>>

Log(w) ==
  /\ WStep(w, "log", "publish")
  /\ log' = Append(log, wt[w])
  /\ UNCHANGED <<deps, nw, out, list, it, mpc, queue, evt, cnt, res, wt, proc, eptr, exit>>

Publish(w) ==
  LET t == wt[w]
      bad == out[t] \in {"fail", "throw"}
  IN
  /\ wpc[w] = "publish"
  /\ WStep(w, "publish", IF bad THEN "except" ELSE "event")
  /\ res' = IF Mutant = "no_result_on_throw" /\ out[t] = "throw" THEN res
            ELSE [res EXCEPT ![t] = IF bad THEN "fail" ELSE "ok"]
  /\ UNCHANGED <<deps, nw, out, list, it, mpc, queue, evt, cnt, wt, proc, eptr, log, exit>>

Except(w) ==
  /\ WStep(w, "except", "event")
  /\ eptr' = (IF Mutant = "lost_exception" THEN eptr ELSE TRUE)
  /\ UNCHANGED <<deps, nw, out, list, it, mpc, queue, evt, cnt, res, wt, proc, log, exit>>

(* Captures of the task are destroyed: first the event is set, then the counter is released. *)
SetEvent(w) ==
  /\ WStep(w, "event", "uncount")
  /\ evt' = IF Mutant = "event_not_sticky" THEN (mpc = "wait") ELSE TRUE
  /\ UNCHANGED <<deps, nw, out, list, it, mpc, queue, cnt, res, wt, proc, eptr, log, exit>>

Uncount(w) ==
  /\ WStep(w, "uncount", "idle")
  /\ cnt' = cnt - 1
  /\ UNCHANGED <<deps, nw, out, list, it, mpc, queue, evt, res, wt, proc, eptr, log, exit>>

WorkerNext(w) == Take(w) \/ Begin(w) \/ EndProc(w) \/ Log(w) \/ Publish(w) \/ Except(w)
                 \/ SetEvent(w) \/ Uncount(w)

Main == Look \/ Wait \/ LoopEnd \/ Drain

Finished == mpc = "done" /\ UNCHANGED vars

Next == Main \/ (\E w \in Worker : WorkerNext(w)) \/ Finished

Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ \A w \in Worker : WF_vars(WorkerNext(w))

----------------------------------------------------------------------------
(* Refinement of Build *)

absSt == [t \in Task |->
   CASE proc[t] = "running" -> "running"
     [] proc[t] = "ended"   -> IF out[t] \in {"fail", "throw"} THEN "failed" ELSE "ok"
     [] OTHER -> "idle"]

B == INSTANCE Build WITH bDeps <- deps, bWorkers <- nw, bSt <- absSt, bExit <- exit

Refines == B!BSpec
OrderInv == B!OrderInv
ExitInv == B!ExitInv
CapInv == B!CapInv
Ends == <>(exit # "none")

(* C19: one entry per task, after those of its dependencies *)
LogInv ==
  /\ \A i, j \in DOMAIN log : log[i] = log[j] => i = j
  /\ \A i \in DOMAIN log : \A d \in deps[log[i]] : \E j \in 1..(i - 1) : log[j] = d
  /\ exit = "ok" => Len(log) = N
==============================================================================
