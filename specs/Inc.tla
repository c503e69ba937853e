--------------------------------- MODULE Inc ---------------------------------
(* Histories of a project: files are edited, touched and deleted, builds run, *)
(* fail, and are interrupted. Shows that building what is not up to date      *)
(* leaves nothing stale (C05) and does nothing in vain (C06), also for        *)
(* selected targets (C15), and generates histories for the graphs in          *)
(* graphs.json.                                                               *)
EXTENDS IncDefs

CONSTANTS MaxOps,
          Emit,     \* print every history of MaxOps operations
          Mutant    \* a defect of the design, or "none"

Graphs == JsonDeserialize("graphs.json")

VARIABLES gi, mt, ver, made, clock, hist, last, n,
          b        \* the build that runs: [on, sel, force, todo, victim, how]

vars == <<gi, mt, ver, made, clock, hist, last, n, b>>

G == Graphs[gi]
T(t) == G.tasks[t]
Ts == DOMAIN G.tasks
Files == {t \in Ts : ~T(t).dir}
Inputs == Set(G.inputs)
Targets == UNION {Set(T(t).targets) : t \in Files}
Idle == [on |-> FALSE, sel |-> {}, force |-> FALSE, todo |-> {}, victim |-> 0, how |-> ""]

Init ==
  /\ gi \in DOMAIN Graphs
  /\ clock = 1
  /\ mt = [f \in Inputs |-> 1] /\ ver = [f \in Inputs |-> 1]
  /\ made = <<>>
  /\ hist = <<>> /\ last = "none" /\ n = 0
  /\ b = Idle

Op(r) == /\ ~b.on /\ n < MaxOps /\ n' = n + 1
         /\ hist' = IF Emit THEN Append(hist, r) ELSE hist
         /\ UNCHANGED gi
User(op, f) == Op([op |-> op, f |-> f]) /\ last' = "none" /\ UNCHANGED b

(* An edit is never older than a target made before it, but may be as old. *)
Edit == \E f \in Inputs : User("edit", f) /\ mt' = Put(mt, f, clock) /\ ver' = Put(ver, f, ver[f] + 1)
                          /\ UNCHANGED <<made, clock>>
Touch == \E f \in Inputs : User("touch", f) /\ mt' = Put(mt, f, clock) /\ UNCHANGED <<ver, made, clock>>
Wait == User("wait", "") /\ clock' = clock + 1 /\ UNCHANGED <<mt, ver, made>>
Delete == \E f \in Targets : User("del", f) /\ Mt(mt, f) > 0 /\ mt' = Put(mt, f, 0)
                             /\ made' = Put(made, f, <<>>) /\ UNCHANGED <<ver, clock>>
Backdate == \E f \in Targets : User("back", f) /\ Mt(mt, f) > 1 /\ mt' = Put(mt, f, 1)
                               /\ UNCHANGED <<ver, made, clock>>
Clean == /\ User("clean", "") /\ \E f \in Targets : Mt(mt, f) > 0
         /\ mt' = [f \in Inputs |-> mt[f]] /\ made' = <<>> /\ UNCHANGED <<ver, clock>>

Start(sel, force, victim, how) ==
  /\ Op([op |-> "build", sel |-> sel, force |-> force, victim |-> victim, how |-> how])
  /\ last' = "none"
  /\ b' = [on |-> TRUE, sel |-> sel, force |-> force, todo |-> Closure(G, sel), victim |-> victim, how |-> how]
  /\ UNCHANGED <<mt, ver, made, clock>>

Hows == {"fail", "garbage", "kill", "killok"}
BuildAll      == Start(Ts, FALSE, 0, "")
BuildForced   == \E s \in {Ts} \cup {{t} : t \in Files} : Start(s, TRUE, 0, "")
BuildSelected == \E s \in {{t} : t \in Files} \cup {{t, u} : t \in Files, u \in Files} : Start(s, FALSE, 0, "")
BuildFailing  == \E t \in Files, h \in Hows : Start(Ts, FALSE, t, h)
BuildSelFail  == \E s \in Files, t \in Files, h \in Hows : t \in Closure(G, {s}) /\ Start({s}, FALSE, t, h)

(* The tasks of a build are done in some order that respects dependencies. *)
NextTask == CHOOSE t \in b.todo : Set(T(t).deps) \cap b.todo = {}

Needed(t) == IF Mutant = "not_older" THEN b.force \/ T(t).always \/ ~(\A f \in Set(T(t).targets) :
                  Mt(mt, f) > 0 /\ (T(t).dir \/ \A i \in Set(T(t).ins) : Mt(mt, i) <= Mt(mt, f)))
             ELSE IF Mutant = "one_target" THEN b.force \/ T(t).always \/ ~(\E f \in Set(T(t).targets) :
                  Mt(mt, f) > 0 /\ (T(t).dir \/ \A i \in Set(T(t).ins) : Mt(mt, i) < Mt(mt, f)))
             ELSE HasToRun(T(t), mt, b.force)

Written(t) ==
  /\ clock' = clock + 1
  /\ mt' = PutAll(mt, Set(T(t).targets), clock + 1)
  /\ ver' = PutAll(ver, Set(T(t).targets), clock + 1)
  /\ made' = PutAll(made, Set(T(t).targets), MadeFrom(T(t), ver))

Step ==
  /\ b.on /\ b.todo # {}
  /\ UNCHANGED <<gi, hist, n>>
  /\ LET t == NextTask IN
     IF ~Needed(t)
     THEN b' = [b EXCEPT !.todo = @ \ {t}] /\ UNCHANGED <<mt, ver, made, clock, last>>
     ELSE IF b.victim # t
     THEN Written(t) /\ b' = [b EXCEPT !.todo = @ \ {t}] /\ UNCHANGED last
     ELSE /\ b' = [b EXCEPT !.on = FALSE]
          /\ last' = "error"
          /\ CASE b.how \in {"fail", "kill"} -> UNCHANGED <<mt, ver, made, clock>>
               [] b.how = "killok" -> Written(t)
               [] b.how = "garbage" ->
                    \* whatever the recipe left is marked as out of date
                    /\ clock' = clock + 1
                    /\ mt' = PutAll(mt, Set(T(t).targets), IF Mutant = "no_mark" THEN clock + 1 ELSE Mt(mt, T(t).src))
                    /\ ver' = PutAll(ver, Set(T(t).targets), clock + 1)
                    /\ made' = PutAll(made, Set(T(t).targets), <<>>)

Done ==
  /\ b.on /\ b.todo = {}
  /\ b' = [b EXCEPT !.on = FALSE] /\ last' = "ok"
  /\ UNCHANGED <<gi, hist, n, mt, ver, made, clock>>

PrintHist ==
  /\ Emit /\ ~b.on /\ n = MaxOps
  /\ PrintT("HIST " \o ToJson([g |-> gi, ops |-> hist]))
  /\ n' = n + 1
  /\ UNCHANGED <<gi, mt, ver, made, clock, hist, last, b>>

Next == Edit \/ Touch \/ Wait \/ Delete \/ Backdate \/ Clean \/ BuildAll \/ BuildForced \/ BuildSelected
        \/ BuildFailing \/ BuildSelFail \/ Step \/ Done \/ PrintHist
Spec == Init /\ [][Next]_vars

NoStale == last = "ok" => \A t \in Closure(G, b.sel) : AllFresh(T(t), mt, ver, made)
NothingInVain == last = "ok" => \A t \in Closure(G, b.sel) : UpToDate(T(t), mt)
(* What is up to date by its time, with all it depends on, is not stale, at   *)
(* any time between builds.                                                   *)
TimeTells == ~b.on => \A t \in Files : (\A u \in Closure(G, {t}) : UpToDate(T(u), mt))
                                       => AllFresh(T(t), mt, ver, made)
==============================================================================
