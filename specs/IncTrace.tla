------------------------------- MODULE IncTrace -------------------------------
(* Checks recorded histories of a project. traces.json is an array of         *)
(*   {"graphs": [graph as in IncDefs..], "ev": [event..]}                     *)
(* Events: edit {f}, del {f};                                                 *)
(*   build {g, sel, all, force, mt}  mt: all modification times at the start; *)
(*   S {t}; E {t, ok, m, garbage}    m: the time given to the targets;        *)
(*   done {r, mt, differ, unknown}   r: ok, error or killed; differ: targets  *)
(*                                   that a build from scratch makes otherwise*)
EXTENDS IncDefs

CONSTANT Props

Traces == JsonDeserialize("traces.json")

VARIABLES ti, l, dead, gi, mt, ver, made, bld

vars == <<ti, l, dead, gi, mt, ver, made, bld>>

Tr == Traces[ti]
Ev == Tr.ev[l]
G == Tr.graphs[gi]
T(t) == G.tasks[t]

Init ==
  /\ ti \in DOMAIN Traces
  /\ l = 1 /\ dead = FALSE /\ gi = 1
  /\ mt = <<>> /\ ver = <<>> /\ made = <<>>
  /\ bld = [sel |-> {}, all |-> TRUE, force |-> FALSE]

V(prop, ok, text) == IF prop \in Props /\ ~ok THEN {prop \o ": " \o text} ELSE {}

Selected == Closure(G, bld.sel)
Stale(m) == {t \in Selected : ~AllFresh(T(t), m, ver, made)}
Differing == Set(Ev.differ) \cap UNION {Set(T(t).targets) : t \in Selected}

Violations ==
  CASE Ev.k = "S" ->
         V("C06", HasToRun(T(Ev.t), mt, bld.force), "a recipe was run for targets that were up to date")
         \cup V("C15", bld.all \/ Ev.t \in Selected, "a recipe was run that the selected targets do not need")
         \cup V("C15", bld.all \/ HasToRun(T(Ev.t), mt, bld.force),
                "a recipe was run for selected targets that were up to date")
    [] Ev.k = "done" ->
         V("C05", Ev.r = "ok" => Stale(Ev.mt) = {}, "a stale target after a successful build")
         \cup V("C05", Ev.r = "ok" => Differing = {}, "a target differs from that of a build from scratch")
         \cup V("C15", Ev.r = "ok" /\ ~bld.all => Stale(Ev.mt) = {}, "a selected target is stale after a successful build")
         \cup V("C15", Ev.unknown => Ev.r # "ok", "an unknown target was accepted")
    [] OTHER -> {}

Step ==
  /\ ~dead /\ l <= Len(Tr.ev)
  /\ l' = l + 1
  /\ UNCHANGED ti
  /\ IF Violations # {}
     THEN /\ PrintT("REJECT " \o ToJson([i |-> ti, l |-> l, why |-> Violations]))
          /\ dead' = TRUE
          /\ UNCHANGED <<gi, mt, ver, made, bld>>
     ELSE /\ UNCHANGED dead
          /\ gi' = IF Ev.k = "build" THEN Ev.g ELSE gi
          /\ bld' = IF Ev.k = "build" THEN [sel |-> Set(Ev.sel), all |-> Ev.all, force |-> Ev.force] ELSE bld
          /\ mt' = CASE Ev.k = "build" -> Ev.mt
                     [] Ev.k = "E" /\ Ev.ok -> PutAll(mt, Set(T(Ev.t).targets), Ev.m)
                     [] OTHER -> mt
          /\ ver' = CASE Ev.k = "edit" -> Put(ver, Ev.f, l)
                      [] Ev.k = "E" /\ (Ev.ok \/ Ev.garbage) -> PutAll(ver, Set(T(Ev.t).targets), l)
                      [] OTHER -> ver
          /\ made' = CASE Ev.k = "del" -> Put(made, Ev.f, <<>>)
                       [] Ev.k = "E" /\ Ev.ok -> PutAll(made, Set(T(Ev.t).targets), MadeFrom(T(Ev.t), ver))
                       [] Ev.k = "E" /\ Ev.garbage -> PutAll(made, Set(T(Ev.t).targets), <<>>)
                       [] OTHER -> made

Accept ==
  /\ ~dead /\ l = Len(Tr.ev) + 1
  /\ PrintT("ACCEPT " \o ToJson(ti))
  /\ dead' = TRUE
  /\ UNCHANGED <<ti, l, gi, mt, ver, made, bld>>

Spec == Init /\ [][Step \/ Accept]_vars
==============================================================================
