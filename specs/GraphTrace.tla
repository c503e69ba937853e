----------------------------- MODULE GraphTrace -----------------------------
(* Judges what maike2 did with projects: items.json is an array of            *)
(*   {"p": project, "obs": {"exit0", "ran", "msg", "graph", "edges",          *)
(*     "targets", "lists": [{"src", "deps", "targets"}]}}                     *)
EXTENDS Graph, TLC, Json

CONSTANT Props
Items == JsonDeserialize("items.json")

VARIABLES ti, ph
Init == ti \in DOMAIN Items /\ ph = 0

V(prop, ok, text) == IF prop \in Props /\ ~ok THEN {prop \o ": " \o text} ELSE {}

SetOf(s) == {s[i] : i \in DOMAIN s}
Str(x) == ToString(x)

Lists(G, O) == SetOf(O.lists)
BadList(G, l) ==
  LET t == Told(G, l.src, l.deps) IN
    V("C08", t.once, "a dependency is told more than once to the recipe of " \o Str(l.src))
    \cup V("C08", t.complete, "a dependency is missing for " \o Str(l.src) \o ": "
            \o Str(After(G, l.src) \ {l.deps[i].to : i \in DOMAIN l.deps}))
    \cup V("C08", t.only, "something is told that is no dependency of " \o Str(l.src) \o ": "
            \o Str({l.deps[i].to : i \in DOMAIN l.deps} \ After(G, l.src)))
    \cup V("C08", t.declared, "a dependency is told with an origin or properties nobody declared, for " \o Str(l.src))
    \cup V("C08", t.ordered, "a dependency comes before one it depends on itself, for " \o Str(l.src))

Verdict(P, O) ==
  LET G == GraphOf(P)
      bad == IllFormed(G)
      want == Edges(G)
      got == SetOf(O.edges)
      tn == {t.n : t \in G.targets}
  IN IF bad
     THEN V("C07", ~O.exit0, "an ill-formed dependency graph is accepted")
          \cup V("C07", O.ran = 0, "recipes are run in spite of an ill-formed dependency graph")
          \cup V("C07", O.exit0 \/ O.msg, "an ill-formed dependency graph is rejected without a message")
     ELSE V("C07", O.exit0, "a well-formed dependency graph is rejected")
          \cup V("C09", O.graph, "no dependency graph is printed")
          \cup V("C09", ~O.graph \/ got \subseteq want, "the graph has edges nobody declared: " \o Str(got \ want))
          \cup V("C09", ~O.graph \/ want \subseteq got, "the graph lacks edges: " \o Str(want \ got))
          \cup V("C09", ~O.graph \/ SetOf(O.targets) = {SubSeq(n, Len(P.td) + 1, Len(n)) : n \in tn},
                 "the list of targets is not what the source files declare")
          \cup (IF O.exit0 THEN UNION {BadList(G, l) : l \in Lists(G, O)} ELSE {})
          \cup V("C08", ~O.exit0 \/ {l.src : l \in Lists(G, O)} = {G.src[t.i] : t \in G.targets},
                 "recipes were not run for exactly the source files with targets")
          \cup (IF O.exit0 THEN UNION {V("C09", SetOf(l.targets) = {t.n : t \in {t \in G.targets : G.src[t.i] = l.src}},
                                   "the targets told to the recipe of " \o Str(l.src)) : l \in Lists(G, O)} ELSE {})

Judge ==
  /\ ph = 0 /\ ph' = 1 /\ UNCHANGED ti
  /\ LET v == Verdict(Items[ti].p, Items[ti].obs) IN
       IF v = {} THEN PrintT("ACCEPT " \o ToString(ti))
       ELSE PrintT("REJECT " \o ToJson([i |-> ti, why |-> v]))

Spec == Init /\ [][Judge]_<<ti, ph>>
=============================================================================
