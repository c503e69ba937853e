-------------------------------- MODULE Scan --------------------------------
(* How the source tree is collected by several workers: every entry becomes a *)
(* piece of work that holds a share of a counter until it is done; who asked  *)
(* for the tree waits until the counter is zero. Checked: whatever the        *)
(* schedule, what is found by then is what Tree.tla says, each entry loaded   *)
(* once, and every ill-formed file is reported.                               *)
(* Variant "early" gives back the share of a folder before its entries took   *)
(* theirs, "last" keeps only the last error, "skip" forgets to filter         *)
(* folders, "follow" does not look whether a link leads back: TLC has to find *)
(* each of them.                                                              *)
EXTENDS Tree, TLC

CONSTANTS Workers, Variant, Shapes
VARIABLES tree, F, queue, at, found, loaded, errors, counter, done

vars == <<tree, F, queue, at, found, loaded, errors, counter, done>>

E(p, k) == [path |-> p, kind |-> k, bad |-> FALSE, to |-> <<>>]
B(p) == [path |-> p, kind |-> "file", bad |-> TRUE, to |-> <<>>]
L(p, to) == [path |-> p, kind |-> "link", bad |-> FALSE, to |-> to]
a == <<"a">>
b == <<"b">>
x == <<"x", ".", "q">>
y == <<"y", ".", "q">>
Chr(c) == [set |-> <<c>>, neg |-> FALSE, lo |-> 1, hi |-> 1]
P(items, bg, en) == [items |-> items, begin |-> bg, end |-> en]

AllTrees == <<
  {},
  {E(<<a>>, "dir")},
  {E(<<x>>, "file")},
  {E(<<a>>, "dir"), E(<<a, x>>, "file"), B(<<y>>)},
  {E(<<a>>, "dir"), B(<<a, x>>), B(<<y>>)},
  {E(<<a>>, "dir"), E(<<a, b>>, "dir"), E(<<a, b, x>>, "file")},
  {E(<<a>>, "dir"), E(<<b>>, "dir"), E(<<a, x>>, "file"), E(<<b, x>>, "file")},
  {E(<<a>>, "dir"), E(<<a, b>>, "dir"), B(<<a, b, x>>), B(<<a, y>>), E(<<y>>, "file")},
  {E(<<a>>, "dir"), E(<<a, x>>, "file"), L(<<b>>, <<a>>)},
  {L(<<a>>, <<>>), L(<<b>>, <<>>)},
  {E(<<a>>, "dir"), E(<<b>>, "dir"), L(<<a, b>>, <<b>>), L(<<b, a>>, <<a>>)} >>
Filters == <<
  [names |-> <<>>, paths |-> <<>>, recursive |-> TRUE],
  [names |-> <<>>, paths |-> <<>>, recursive |-> FALSE],
  [names |-> <<P(<<Chr("b")>>, TRUE, TRUE)>>, paths |-> <<>>, recursive |-> TRUE],
  [names |-> <<>>, paths |-> <<P(<<Chr("a"), Chr("/"), Chr("x")>>, TRUE, FALSE)>>, recursive |-> TRUE],
  [names |-> <<P(<<Chr("a")>>, FALSE, FALSE)>>, paths |-> <<P(<<Chr("y")>>, FALSE, FALSE)>>, recursive |-> TRUE] >>
Map == <<[ext |-> <<".", "q">>, ld |-> "r"]>>
Root == [path |-> <<>>, kind |-> "dir", bad |-> FALSE]
Work(e, dir, chain) == [e |-> e, dir |-> dir, chain |-> chain]   \* the real folder, and those above it
Start == Work(Root, <<>>, {})
None == [e |-> Start, pc |-> "idle"]

Init ==
  /\ tree \in {AllTrees[i] : i \in Shapes} /\ F \in ToSet(Filters)
  /\ queue = <<Start>> /\ at = [w \in Workers |-> None] /\ found = {} /\ loaded = <<>> /\ errors = {}
  /\ counter = 1 /\ done = FALSE

Below(k) ==
  {LET real == IF d.kind = "link" THEN d.to ELSE d.path
       p == Append(k.e.path, d.path[Len(d.path)])
       chain == k.chain \cup {k.dir}
   IN IF d.kind = "file" THEN Work([path |-> p, kind |-> "file", bad |-> d.bad], real, chain)
      ELSE IF d.kind = "link" /\ real \in chain /\ Variant # "follow"
      THEN Work([path |-> p, kind |-> "loop", bad |-> FALSE], real, chain)
      ELSE Work([path |-> p, kind |-> "dir", bad |-> FALSE], real, chain)
   : d \in Kids(tree, k.dir)}
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE c \in S : TRUE IN <<c>> \o AsSeq(S \ {c})

Take(w) ==
  /\ at[w] = None /\ queue # <<>>
  /\ at' = [at EXCEPT ![w] = [e |-> Head(queue), pc |-> "filter"]] /\ queue' = Tail(queue)
  /\ counter' = IF Variant = "early" THEN counter - 1 ELSE counter
  /\ UNCHANGED <<tree, F, found, loaded, errors, done>>

Drop(w) == at' = [at EXCEPT ![w] = None] /\ counter' = IF Variant = "early" THEN counter ELSE counter - 1

Filter(w) ==
  /\ at[w].pc = "filter"
  /\ LET e == at[w].e.e
         out == e # Root /\ ((~F.recursive /\ e.kind # "file")
                             \/ (Excluded(e, F) /\ ~(Variant = "skip" /\ e.kind = "dir")))
     IN IF out THEN Drop(w) ELSE at' = [at EXCEPT ![w].pc = "load"] /\ UNCHANGED counter
  /\ UNCHANGED <<tree, F, queue, found, loaded, errors, done>>

Load(w) ==
  /\ at[w].pc = "load"
  /\ LET e == at[w].e.e IN
       /\ loaded' = Append(loaded, e)
       /\ IF Ill(Map, e, {"r"}) \/ e.kind = "loop"
          THEN /\ errors' = IF Variant = "last" THEN {e} ELSE errors \cup {e}
               /\ Drop(w)
          ELSE at' = [at EXCEPT ![w].pc = "insert"] /\ UNCHANGED <<errors, counter>>
  /\ UNCHANGED <<tree, F, queue, found, done>>

Insert(w) ==
  /\ at[w].pc = "insert" /\ found' = found \cup {at[w].e.e}
  /\ at' = [at EXCEPT ![w].pc = IF at[w].e.e.kind = "dir" THEN "list" ELSE "end"]
  /\ UNCHANGED <<tree, F, queue, loaded, errors, counter, done>>

List(w) ==
  /\ at[w].pc = "list"
  /\ queue' = queue \o AsSeq(Below(at[w].e)) /\ at' = [at EXCEPT ![w].pc = "end"]
  /\ counter' = counter + Cardinality(Below(at[w].e))
  /\ UNCHANGED <<tree, F, found, loaded, errors, done>>

End(w) == /\ at[w].pc = "end" /\ Drop(w)
          /\ UNCHANGED <<tree, F, queue, found, loaded, errors, done>>

Wake == /\ ~done /\ counter = 0 /\ done' = TRUE
        /\ UNCHANGED <<tree, F, queue, at, found, loaded, errors, counter>>

Next == Wake \/ \E w \in Workers : Take(w) \/ Filter(w) \/ Load(w) \/ Insert(w) \/ List(w) \/ End(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Expected == SourceTree(tree, F)
Bad == {e \in Expected : Ill(Map, e, {"r"}) \/ e.kind = "loop"}
Whole == done => found = (Expected \ Bad) \cup {Root}
Reported == done => errors = Bad
Once == Len(loaded) = Cardinality(ToSet(loaded)) /\ (done => ToSet(loaded) = Expected \cup {Root})
Small == Len(queue) <= 40 /\ \A i \in DOMAIN queue : Len(queue[i].e.path) <= 5
Finishes == <>done
=============================================================================
