----------------------------- MODULE PathsTrace -----------------------------
(* Judges builds of the same project under different names of its folders.    *)
(* items.json is an array of {"a": run, "b": run}; a run is {"cwd", "sd",     *)
(* "td": spellings, "exit0", "cmds": [{"exe", "src", "targets", "deps":       *)
(* [{"ref", "o", "pr"}], "bsd", "btd", "rest"}], "edges": [[spelling,         *)
(* spelling]], "list": names below the target folder, "files": [path],        *)
(* "again": number of recipes run by another build that names the folders     *)
(* like the other run}. {"ext": name} stands for something outside of the     *)
(* project.                                                                   *)
EXTENDS Paths, TLC, Json

CONSTANT Props
Items == JsonDeserialize("items.json")

VARIABLES ti, ph
Init == ti \in DOMAIN Items /\ ph = 0

Range(s) == {s[i] : i \in DOMAIN s}
V(ok, text) == IF ok THEN {} ELSE {"C20: " \o text}

Home(R) == [sd |-> Place(R.cwd, R.sd), td |-> Place(R.cwd, R.td)]
At(R, p) == IF "ext" \in DOMAIN p THEN <<"external", p.ext>> ELSE Seen(Place(R.cwd, p), Home(R).sd, Home(R).td)
Cmds(R) == {[exe |-> At(R, x.exe), src |-> At(R, x.src), targets |-> [i \in DOMAIN x.targets |-> At(R, x.targets[i])],
             deps |-> [i \in DOMAIN x.deps |-> [to |-> At(R, x.deps[i].ref),
                                                o |-> x.deps[i].o, pr |-> Range(x.deps[i].pr)]],
             sd |-> At(R, x.bsd), td |-> At(R, x.btd), rest |-> x.rest] : x \in Range(R.cmds)}
(* the order of dependencies that do not depend on each other is free *)
Loose(S) == {[x EXCEPT !.deps = Range(x.deps), !.targets = Range(x.targets)] : x \in S}
Edges(R) == {<<At(R, e[1]), At(R, e[2])>> : e \in Range(R.edges)}

Verdict(A, B) ==
  IF ~A.exit0 THEN (IF B.exit0 THEN {"C20: only one of the two builds succeeds"} ELSE {})
  ELSE IF ~B.exit0 THEN {"C20: only one of the two builds succeeds"}
  ELSE LET ca == Loose(Cmds(A))
           cb == Loose(Cmds(B))
       IN V({x.src : x \in ca} = {x.src : x \in cb}, "recipes are run for other source files")
          \cup V(ca = cb, "other commands: " \o ToString({x.src : x \in (ca \ cb) \cup (cb \ ca)}))
          \cup V(Range(A.files) = Range(B.files), "other targets are made")
          \cup V(Range(A.list) = Range(B.list), "other targets are listed")
          \cup V(Edges(A) = Edges(B), "another dependency graph")
          \cup V(A.again = 0 /\ B.again = 0, "a build that names the folders otherwise does not find the targets up to date")
          \cup V(\A x \in Cmds(B) : x.src[1] = "source" /\ x.sd = <<"source">> /\ x.td = <<"target">>
                                    /\ \A i \in DOMAIN x.targets : x.targets[i][1] = "target", "a path outside of the folders")

Judge ==
  /\ ph = 0 /\ ph' = 1 /\ UNCHANGED ti
  /\ LET v == Verdict(Items[ti].a, Items[ti].b) IN
       IF v = {} THEN PrintT("ACCEPT " \o ToString(ti))
       ELSE PrintT("REJECT " \o ToJson([i |-> ti, why |-> v]))

Spec == Init /\ [][Judge]_<<ti, ph>>
=============================================================================
