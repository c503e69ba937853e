-------------------------------- MODULE Tree --------------------------------
(* Which entries below a source folder belong to the source tree, and which   *)
(* loader each of them gets. Names are sequences of characters. An entry is   *)
(*   [path: sequence of names, kind: "file", "dir", ..., bad: BOOLEAN, to]    *)
(* (bad: the loader of that file, if it is one that reads it, finds it        *)
(* ill-formed). Patterns are POSIX basic regular expressions, taken apart:    *)
(*   [begin, end: BOOLEAN, items: sequence of [set, neg, lo, hi]]             *)
(* where an item is lo to hi (-1: any number of) characters in the set (neg:  *)
(* not in it).                                                                *)
EXTENDS Integers, Sequences, FiniteSets

ToSet(s) == {s[i] : i \in DOMAIN s}

OneOf(item, c) == (c \in ToSet(item.set)) # item.neg

RECURSIVE Ends(_, _, _, _)     \* where a match of items k.. of p can end (exclusive) when it begins at i
RECURSIVE Rep(_, _, _, _, _)   \* the same, item k having been used n times
Rep(p, s, k, n, i) ==
  LET it == p.items[k]
  IN (IF n >= it.lo THEN Ends(p, s, k + 1, i) ELSE {})
     \cup (IF (it.hi = -1 \/ n < it.hi) /\ i <= Len(s) /\ OneOf(it, s[i])
           THEN Rep(p, s, k, n + 1, i + 1) ELSE {})
Ends(p, s, k, i) == IF k > Len(p.items) THEN {i} ELSE Rep(p, s, k, 0, i)

(* Somewhere in the text, unless it is anchored. *)
Matches(p, s) ==
  \E i \in 1..Len(s) + 1 : (p.begin => i = 1) /\ \E e \in Ends(p, s, 1, i) : (p.end => e = Len(s) + 1)

RECURSIVE Slashed(_)
Slashed(path) == IF Len(path) = 1 THEN path[1] ELSE path[1] \o <<"/">> \o Slashed(Tail(path))

Excluded(e, F) ==
  \/ \E i \in DOMAIN F.names : Matches(F.names[i], e.path[Len(e.path)])
  \/ \E i \in DOMAIN F.paths : Matches(F.paths[i], Slashed(e.path))

(* tree: the set of entries there really are, with every folder above each of *)
(* them. An entry of kind "link" is a symbolic link to the folder e.to; one of *)
(* kind "ext" is a folder that lies outside of the source folder, and is seen *)
(* through links only. Walk gives the entries as they are seen below `at`,    *)
(* the real folder there being dir, and chain the real folders from the source *)
(* folder to it. A link back to one of those is of kind "loop".               *)
Kids(tree, dir) == {e \in tree : Len(e.path) = Len(dir) + 1 /\ SubSeq(e.path, 1, Len(dir)) = dir /\ e.kind # "ext"}

RECURSIVE Walk(_, _, _, _, _)
Walk(tree, F, at, dir, chain) ==
  UNION {
    LET seen == Append(at, e.path[Len(e.path)])
        real == IF e.kind = "link" THEN e.to ELSE e.path
        As(k) == [path |-> seen, kind |-> k, bad |-> e.bad]
    IN IF Excluded([path |-> seen], F) \/ (e.kind # "file" /\ ~F.recursive) THEN {}
       ELSE IF e.kind = "file" THEN {As("file")}
       ELSE IF real \in chain THEN {As("loop")}
       ELSE {As("dir")} \cup Walk(tree, F, seen, real, chain \cup {real})
    : e \in Kids(tree, dir)}

SourceTree(tree, F) == Walk(tree, F, <<>>, <<>>, {<<>>})

(* The loader of the longest suffix that is in the map: <<suffix, loader>>. *)
SuffixOf(x, s) == Len(x) < Len(s) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
LoaderOf(map, e) ==
  IF e.kind = "dir" THEN "dir"
  ELSE LET name == e.path[Len(e.path)]
           fit == {i \in DOMAIN map : SuffixOf(map[i].ext, name)}
       IN IF fit = {} THEN "none"
          ELSE map[CHOOSE i \in fit : \A j \in fit : Len(map[j].ext) <= Len(map[i].ext)].ld

Ill(map, e, readers) == e.bad /\ e.kind = "file" /\ LoaderOf(map, e) \in readers
=============================================================================
