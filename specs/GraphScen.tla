----------------------------- MODULE GraphScen ------------------------------
(* Every small project: N files of each kind, every relation "refers to"      *)
(* between them. How a reference is written follows from the kinds and a      *)
(* running number. Emitted as projects in the sense of Graph.                 *)
EXTENDS Graph, TLC, Json

CONSTANTS N, Kinds, Variant

Vrec == [r |-> <<"vrecipe">>, o |-> "project"]
NoRec == [r |-> <<>>, o |-> "project"]
Num(i) == ToString(i)
HasTarget(k) == k # "hpp"
FileName(i, k) == "s" \o Num(i) \o (CASE k = "hpp" -> ".hpp" [] k = "cxx" -> ".cpp" [] k = "link" -> ".lnk.cpp"
                                      [] k = "rule" -> ".rule" [] k = "lib" -> ".lib" [] k = "ext" -> ".ext")
Kind(k) == IF k = "hpp" THEN "cxx" ELSE k
IsCxx(k) == k \in {"hpp", "cxx", "link"}

R(name, o) == [r |-> <<name>>, rel |-> FALSE, o |-> o, pr |-> <<>>]
(* the ways file i, of kind k, can refer to j *)
Way(k, i, j, kj) ==
  IF ~HasTarget(kj) THEN IF IsCxx(k) THEN "inc" ELSE "pdep"
  ELSE LET w == (i + 2 * j + Variant) % 3 IN
       CASE w = 0 -> "deps" [] w = 1 -> IF HasTarget(k) THEN "tdeps" ELSE "extra" [] OTHER -> IF IsCxx(k) THEN "extra" ELSE "deps"
Out(j) == "t" \o Num(j)

RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
Map(s, f(_)) == [i \in DOMAIN s |-> f(s[i])]

VARIABLES ks, rel, done
Init == ks \in [1..N -> Kinds] /\ rel \in SUBSET ((1..N) \X (1..N)) /\ done = FALSE

File(i) ==
  LET k == ks[i]
      refs(w) == Asc({j \in 1..N : <<i, j>> \in rel /\ Way(k, i, j, ks[j]) = w})
      toFile(j) == R(FileName(j, ks[j]), "project")
      toOut(j) == R(Out(j), "generated")
  IN [p |-> <<FileName(i, k)>>, k |-> Kind(k), rec |-> IF k = "ext" THEN NoRec ELSE Vrec,
      inc |-> Map(refs("inc"), toFile),
      deps |-> Map(refs("pdep"), toFile) \o Map(refs("deps"), toOut),
      extra |-> Map(refs("extra"), toOut),
      targets |-> IF HasTarget(k) THEN <<[n |-> <<Out(i)>>, deps |-> Map(refs("tdeps"), toOut)]>> ELSE <<>>]

Emit == /\ ~done /\ done' = TRUE /\ UNCHANGED <<ks, rel>>
        /\ PrintT("SCEN " \o ToJson([files |-> [i \in 1..N |-> File(i)]]))
Spec == Init /\ [][Emit]_<<ks, rel, done>>
=============================================================================
