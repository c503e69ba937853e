--------------------------------- MODULE Dfs --------------------------------
(* The traversal that orders tasks and collects dependencies: an explicit     *)
(* stack and three marks per node. For every graph it visits each reachable   *)
(* node once, after everything the node depends on, or finds a cycle exactly  *)
(* when there is one.                                                         *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS N,        \* number of nodes
          Ordered,  \* TRUE: all orders of the edges of a node as well
          Mutant    \* a name of a broken variant, or ""

Nodes == 1..N
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
Perms(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : s[i] = s[j] => i = j}
EdgeLists == IF Ordered THEN UNION {Perms(S) : S \in SUBSET Nodes} ELSE {Asc(S) : S \in SUBSET Nodes}

VARIABLES edges, roots, start, stack, mark, out, st
vars == <<edges, roots, start, stack, mark, out, st>>

Init ==
  /\ edges \in [Nodes -> EdgeLists]
  /\ start \in {Asc(Nodes)} \cup {<<n>> : n \in Nodes}
  /\ roots = {start[i] : i \in DOMAIN start}
  /\ stack = <<>>
  /\ mark = [n \in Nodes |-> "init"]
  /\ out = <<>>
  /\ st = "run"

Top == stack[Len(stack)]
Succ(n) == {edges[n][i] : i \in DOMAIN edges[n]}
Unmarked(s, n) == SelectSeq(s, LAMBDA x : mark[x] = "init" /\ x # n)

Begin ==
  /\ st = "run" /\ stack = <<>>
  /\ IF start = <<>> THEN st' = "done" /\ UNCHANGED <<start, stack>>
     ELSE /\ start' = Tail(start)
          /\ stack' = IF mark[Head(start)] = "init" THEN <<Head(start)>> ELSE <<>>
          /\ UNCHANGED st
  /\ UNCHANGED <<edges, roots, mark, out>>

Visit ==
  /\ st = "run" /\ stack # <<>>
  /\ LET n == Top IN
     CASE mark[n] = "init" ->
            IF \E x \in Succ(n) : x = n \/ (mark[x] = "inProgress" /\ Mutant # "no_cycle")
            THEN st' = "cyclic" /\ UNCHANGED <<stack, mark, out>>
            ELSE /\ mark' = [mark EXCEPT ![n] = IF Mutant = "mark_done" THEN "done" ELSE "inProgress"]
                 /\ stack' = stack \o Unmarked(edges[n], n)
                 /\ out' = IF Mutant = "preorder" THEN Append(out, n) ELSE out
                 /\ UNCHANGED st
       [] mark[n] = "inProgress" ->
            /\ mark' = [mark EXCEPT ![n] = "done"]
            /\ out' = IF Mutant = "preorder" THEN out ELSE Append(out, n)
            /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
            /\ UNCHANGED st
       [] OTHER -> stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<mark, out, st>>
  /\ UNCHANGED <<edges, roots, start>>

Next == Begin \/ Visit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Reach(_)
Reach(s) == LET n == s \cup UNION {Succ(x) : x \in s} IN IF n = s THEN s ELSE Reach(n)
CyclicFrom(s) == \E n \in Reach(s) : n \in Reach(Succ(n))
Seen == {out[i] : i \in DOMAIN out}

Once == \A i, j \in DOMAIN out : out[i] = out[j] => i = j
DependenciesFirst == st # "cyclic" => \A i \in DOMAIN out : \A x \in Succ(out[i]) : \E j \in 1..(i - 1) : out[j] = x
CycleOnlyIfThere == st = "cyclic" => CyclicFrom(roots)
NothingMissed == st = "done" => Seen = Reach(roots) /\ ~CyclicFrom(roots)
Terminates == <>(st # "run")
=============================================================================
