------------------------------- MODULE IncDefs -------------------------------
(* When a target is up to date, and when it is stale.                         *)
(*                                                                            *)
(* A graph is [tasks |-> <<[targets, ins, deps, dir, always]..>>, inputs];    *)
(* ins are all files a task depends on, directly or indirectly, with its      *)
(* source file, deps the tasks, inputs the files a user edits.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Set(s) == {s[i] : i \in DOMAIN s}
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == (x :> v) @@ f
PutAll(f, X, v) == [x \in X |-> v] @@ f

(* mt: file -> modification time, 0 if it does not exist *)
Mt(mt, f) == Get(mt, f, 0)

(* Every target is there and newer than everything it depends on. *)
UpToDate(tk, mt) ==
  \A f \in Set(tk.targets) : /\ Mt(mt, f) > 0
                             /\ tk.dir \/ \A i \in Set(tk.ins) : Mt(mt, i) < Mt(mt, f)
HasToRun(tk, mt, force) == force \/ tk.always \/ ~UpToDate(tk, mt)

(* What a target is made from: the version of every file its task depends on. *)
(* ver: file -> version; a target gets a new version whenever it is written.  *)
MadeFrom(tk, ver) == [i \in Set(tk.ins) |-> Get(ver, i, 0)]

(* made: target -> MadeFrom at the time it was written. *)
Fresh(tk, f, mt, ver, made) == Mt(mt, f) > 0 /\ (tk.dir \/ Get(made, f, <<>>) = MadeFrom(tk, ver))
AllFresh(tk, mt, ver, made) == \A f \in Set(tk.targets) : Fresh(tk, f, mt, ver, made)

Closure(g, sel) == sel \cup UNION {Set(g.tasks[t].deps) : t \in sel}
==============================================================================
