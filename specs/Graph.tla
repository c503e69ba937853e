------------------------------- MODULE Graph --------------------------------
(* What a project declares: the nodes and edges of its dependency graph, the  *)
(* dependencies each recipe is to be told, and which projects are ill formed. *)
(* A project P is a record                                                    *)
(*   sd, td   source and target folder, as sequences of names                 *)
(*   dirrec   the recipe for folders (a reference to a file, see below)       *)
(*   files    sequence of [p |-> path below sd, k |-> kind, rec |-> recipe,   *)
(*              inc, deps, extra |-> references, targets |-> ..]              *)
(* Kinds: "dir", "plain" (no loader), "cxx", "link" (C++ with the link        *)
(* action), "lib", "rule", "ext" (its own recipe), "gen".                     *)
(* A reference is [r |-> names, rel |-> begins with ./, o |-> origin,         *)
(* pr |-> properties]; a target is [n |-> names, deps |-> references].        *)
(* Paths are sequences of names, so that the resolution of references is part *)
(* of the specification.                                                      *)
EXTENDS Naturals, Sequences, FiniteSets

Range(s) == {s[i] : i \in DOMAIN s}
Front(s) == SubSeq(s, 1, Len(s) - 1)

(* ---- paths *)
RECURSIVE NormFrom(_, _)
NormFrom(done, todo) ==
  IF todo = <<>> THEN done
  ELSE LET x == Head(todo) IN
       CASE x = "." \/ x = "" -> NormFrom(done, Tail(todo))
         [] x = ".." /\ done # <<>> -> NormFrom(Front(done), Tail(todo))
         [] OTHER -> NormFrom(Append(done, x), Tail(todo))
Norm(s) == NormFrom(<<>>, s)
Name(s) == IF s = <<>> THEN <<".">> ELSE s

External(o) == o \in {"system", "pkg-config"}

(* ---- what the files declare. F is a file, Dir(F) its folder below sd *)
Dir(F) == Front(F.p)
Resolve(P, F, d) ==
  IF External(d.o) THEN d.r
  ELSE LET n == Norm((IF d.rel THEN Dir(F) ELSE <<>>) \o d.r)
       IN  Name((IF d.o = "generated" THEN P.td ELSE P.sd) \o n)
Dep(P, F, d) == [to |-> Resolve(P, F, d), o |-> d.o, pr |-> Range(d.pr)]

Path(P, F) == Name(P.sd \o F.p)
Loaded(F) == F.k \notin {"plain"}
FolderDep(P, F) == {[to |-> Name(P.sd \o Dir(F)), o |-> "project", pr |-> {}]}
(* A recipe in the source folder is a project file, others are part of the    *)
(* installation.                                                              *)
RecipeDep(P, rec) == IF rec.r = <<>> THEN {}
                     ELSE {[to |-> IF rec.o = "project" THEN Name(P.sd \o rec.r) ELSE rec.r, o |-> rec.o, pr |-> {}]}

OwnUse(P, F) ==
  IF ~Loaded(F) THEN {}
  ELSE (IF F.p = <<>> THEN {} ELSE FolderDep(P, F))
       \cup RecipeDep(P, IF F.k = "dir" THEN P.dirrec ELSE F.rec)
       \cup {Dep(P, F, d) : d \in Range(F.inc) \cup Range(F.deps)}

TargetName(P, F, t) == IF F.k = "dir" THEN Name(P.td \o F.p) ELSE P.td \o Norm(Dir(F) \o t.n)
Inherited(P, F) == {Dep(P, F, d) : d \in Range(F.extra)}
UsesTargetDeps(F) == F.k \in {"link", "lib"}

RECURSIVE Reach(_, _)
Reach(next, s) == LET n == s \cup UNION {next[x] : x \in s \cap DOMAIN next}
                  IN IF n = s THEN s ELSE Reach(next, n)

(* ---- the graph *)
GraphOf(P) ==
  LET Fs == DOMAIN P.files
      F(i) == P.files[i]
      src == [i \in Fs |-> Path(P, F(i))]
      srcNames == {src[i] : i \in Fs}
      own == [i \in Fs |-> OwnUse(P, F(i))]
      ownNext == [n \in srcNames |-> UNION {{d.to : d \in own[i]} \cap srcNames : i \in {j \in Fs : src[j] = n}}]
      tg == UNION {{[n |-> TargetName(P, F(i), F(i).targets[k]), i |-> i, k |-> k] : k \in DOMAIN F(i).targets} : i \in Fs}
      targets == {t \in tg : t.n # src[t.i]}
      (* a target gets the extra dependencies of everything its source file includes *)
      tuse == [t \in targets |->
                {Dep(P, F(t.i), d) : d \in Range(F(t.i).targets[t.k].deps)}
                \cup {d \in UNION {Inherited(P, F(j)) : j \in {j \in Fs : src[j] \in Reach(ownNext, {src[t.i]})}} : d.to # t.n}]
      use == [i \in Fs |-> own[i] \cup IF UsesTargetDeps(F(i))
                                       THEN UNION {tuse[t] : t \in {t \in targets : t.i = i}} ELSE {}]
      tnames == {t.n : t \in targets}
      out(n) == UNION {use[i] : i \in {j \in Fs : src[j] = n}}
                \cup UNION {tuse[t] \cup {[to |-> src[t.i], o |-> "project", pr |-> {}]} : t \in {x \in targets : x.n = n}}
      all == UNION {use[i] : i \in Fs} \cup UNION {tuse[t] : t \in targets}
      ext == {d.to : d \in {d \in all : External(d.o)}}
      nodes == srcNames \cup tnames \cup ext
  IN [nodes |-> nodes, targets |-> targets, out |-> [n \in nodes |-> out(n)], src |-> src,
      ambiguous |-> Cardinality(tnames) # Cardinality(targets),
      unresolved |-> {d \in all : d.to \notin nodes}]

Edges(G) == UNION {{<<n, d.to>> : d \in G.out[n]} : n \in G.nodes}
Next(G) == [n \in G.nodes |-> {d.to : d \in G.out[n]}]
After(G, n) == LET nx == Next(G) IN Reach(nx, nx[n])   \* everything n depends on
Cyclic(G) == LET nx == Next(G) IN \E n \in G.nodes : n \in Reach(nx, nx[n])
IllFormed(G) == G.ambiguous \/ G.unresolved # {} \/ Cyclic(G)

(* ---- the list of dependencies of a recipe: L is a sequence of              *)
(* [to, o, pr]; n the source file.                                            *)
Told(G, n, L) ==
  LET want == After(G, n)
      from == UNION {G.out[m] : m \in want \cup {n}}
      nx == Next(G)
  IN [once     |-> \A i, j \in DOMAIN L : L[i].to = L[j].to => i = j,
      complete |-> want \subseteq {L[i].to : i \in DOMAIN L},
      only     |-> {L[i].to : i \in DOMAIN L} \subseteq want,
      declared |-> \A i \in DOMAIN L : L[i].to \in want => [to |-> L[i].to, o |-> L[i].o, pr |-> Range(L[i].pr)] \in from,
      ordered  |-> \A i \in DOMAIN L : L[i].to \in G.nodes =>
                     \A j \in i..Len(L) : L[j].to \notin nx[L[i].to]]
=============================================================================
