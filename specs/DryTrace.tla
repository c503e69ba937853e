------------------------------- MODULE DryTrace -------------------------------
(* Judges printed commands. items.json is an array of                         *)
(*  {"text":   what maike2 printed, as symbols (see Shell),                   *)
(*   "argvs":  the argument vectors recipes were started with in a real       *)
(*             build,                                                         *)
(*   "order":  true if the commands have to come in an order in which they    *)
(*             can be run,                                                    *)
(*   "needs":  for each argument vector of the real build, which of the       *)
(*             others have to come before it,                                 *)
(*   "dry":    the invocation was a dry run, "full": a first or forced one,   *)
(*   "exit0", "started" (recipes started by the dry run),                     *)
(*   "before", "after": the tree, as a set of [path, what it is],             *)
(*   "shell":  the argument vectors a shell used when given the text}         *)
EXTENDS Shell, TLC, Json, FiniteSets

CONSTANT Props
Items == JsonDeserialize("items.json")

VARIABLES ti, ph
TInit == ti \in DOMAIN Items /\ ph = 0 /\ cmds = <<>>

V(prop, ok, text) == IF prop \in Props /\ ~ok THEN {prop \o ": " \o text} ELSE {}
SetOf(s) == {s[i] : i \in DOMAIN s}
Same(a, b) == Len(a) = Len(b) /\ SetOf(a) = SetOf(b)
Once(a) == Cardinality(SetOf(a)) = Len(a)
At(a, x) == CHOOSE i \in DOMAIN a : a[i] = x

Ordered(C, I) == \A k \in DOMAIN I.argvs : \A d \in SetOf(I.needs[k]) : At(C, I.argvs[d]) < At(C, I.argvs[k])

Verdict(I) ==
  LET C == Commands(I.text)
      good == C # <<"bad">>
      listed == good /\ Same(C, I.argvs) /\ Once(C)
  IN V("C13", good, "what is printed is no list of commands to a shell")
     \cup V("C13", ~good \/ I.dry \/ Same(C, I.argvs), "a printed command is not the one that was run")
     \cup V("C13", ~good \/ ~I.full \/ Same(C, I.argvs), "the printed script does not run what the build runs")
     \cup V("C13", ~good \/ ~("shell" \in DOMAIN I) \/ Same(C, I.shell), "a shell runs something else")
     \cup V("C13", I.started > 0 \/ SetOf(I.before) = SetOf(I.after), "the printed script does not build what the build builds")
     \cup (IF ~I.dry THEN {} ELSE
             V("C16", I.exit0, "a dry run fails although the build does not")
             \cup V("C16", I.started = 0, "a dry run runs a recipe")
             \cup V("C16", SetOf(I.before) = SetOf(I.after), "a dry run changes files")
             \cup V("C16", ~I.full \/ listed, "a dry run does not list the commands of the build, each once")
             \cup V("C16", ~I.full \/ ~listed \/ Ordered(C, I), "a dry run lists a command before one it needs"))

Judge ==
  /\ ph = 0 /\ ph' = 1 /\ UNCHANGED <<ti, cmds>>
  /\ LET v == Verdict(Items[ti]) IN
       IF v = {} THEN PrintT("ACCEPT " \o ToString(ti))
       ELSE PrintT("REJECT " \o ToJson([i |-> ti, why |-> v]))

TSpec == TInit /\ [][Judge]_<<ti, ph, cmds>>
=============================================================================
