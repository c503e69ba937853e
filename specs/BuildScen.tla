------------------------------ MODULE BuildScen ------------------------------
(* Scenarios for builds under control: every acyclic graph of N tasks, every  *)
(* number of workers, every outcome of every recipe, and every preference     *)
(* among the running recipes as to which one ends next. Together the          *)
(* preferences cover every order of completion Build allows.                  *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json, Randomization

CONSTANTS N, MaxW, Fates, Sample   \* Sample = 0: all of them

Task == 1..N
Dags  == {d \in [Task -> SUBSET Task] : \A t \in Task : \A x \in d[t] : x < t}
Prios == {p \in [Task -> Task] : \A a, b \in Task : a # b => p[a] # p[b]}
All   == [deps : Dags, w : 1..MaxW, fate : [Task -> Fates], prio : Prios]
Pick  == IF Sample = 0 THEN All
         ELSE [deps : RandomSubset(Sample, Dags), w : 1..MaxW,
               fate : RandomSubset(Sample, [Task -> Fates]), prio : RandomSubset(Sample, Prios)]

VARIABLE s
Init == s \in Pick
Next == UNCHANGED s
Show == PrintT("SCEN " \o ToJson(s))
Spec == Init /\ [][Next]_s
==============================================================================
