------------------------------ MODULE TreeTrace ------------------------------
(* Judges what maike2 took from source folders. items.json is an array of     *)
(*  {"tree": [entry], "names", "paths": [pattern], "recursive",               *)
(*   "map": [{"ext", "ld"}], "readers": [loaders that read files],            *)
(*   "obs": {"ended", "exit0", "ran": [{"path", "ld"}]  (what recipes were run for,    *)
(*             and the loader their settings came from),                      *)
(*           "yes", "no": [path] (can be depended on as a project file / can't),*)
(*           "named": [path] (files named on standard error)}}                *)
EXTENDS Tree, TLC, Json

CONSTANT Props
Items == JsonDeserialize("items.json")

VARIABLES ti, ph
Init == ti \in DOMAIN Items /\ ph = 0

V(prop, ok, text) == IF prop \in Props /\ ~ok THEN {prop \o ": " \o text} ELSE {}
Str(v) == ToString(v)

Verdict(I) ==
  LET T == ToSet(I.tree)
      F == [names |-> I.names, paths |-> I.paths, recursive |-> I.recursive]
      S == TLCEval(SourceTree(T, F))
      R == ToSet(I.readers)
      bad == {e.path : e \in {e \in S : Ill(I.map, e, R)}}
      ran == {<<r.path, r.ld>> : r \in ToSet(I.obs.ran)}
      want == {<<e.path, LoaderOf(I.map, e)>> : e \in {e \in S : LoaderOf(I.map, e) # "none"}} \cup {<<<<>>, "dir">>}
      here == {e.path : e \in S}
  IN IF ~I.obs.ended THEN V("C11", FALSE, "the scan does not end") \cup V("C21", FALSE, "the scan does not end")
     ELSE IF \E e \in S : e.kind = "loop"
     THEN V("C11", ~I.obs.exit0, "links that form a cycle are accepted")
          \cup V("C11", I.obs.ran = <<>>, "a recipe is run in spite of links that form a cycle")
     ELSE IF bad # {}
     THEN V("C11", ~I.obs.exit0, "ill-formed files are accepted")
          \cup V("C21", ~I.obs.exit0, "ill-formed tags are accepted")
          \cup V("C21", I.obs.ran = <<>>, "a recipe is run in spite of ill-formed tags")
          \cup V("C21", bad \subseteq ToSet(I.obs.named), "a file with ill-formed tags is not reported: " \o Str(bad \ ToSet(I.obs.named)))
          \cup V("C11", ToSet(I.obs.named) \subseteq bad, "a file outside the source tree is reported: " \o Str(ToSet(I.obs.named) \ bad))
     ELSE V("C11", I.obs.exit0, "a source tree without errors is rejected")
          \cup V("C21", I.obs.exit0, "a source tree without errors is rejected")
          \cup V("C11", ~I.obs.exit0 \/ {r[1] : r \in ran} = {r[1] : r \in want},
                 "not the files that pass the filters: extra " \o Str({r[1] : r \in ran} \ {r[1] : r \in want})
                 \o " missing " \o Str({r[1] : r \in want} \ {r[1] : r \in ran}))
          \cup V("C11", ~I.obs.exit0 \/ ran \subseteq want \/ {r[1] : r \in ran} # {r[1] : r \in want},
                 "the wrong loader: " \o Str(ran \ want))
          \cup V("C11", Len(I.obs.ran) = Cardinality(ran), "a file is there twice")
          \cup V("C11", ToSet(I.obs.yes) \subseteq here, "a file outside the source tree can be depended on: " \o Str(ToSet(I.obs.yes) \ here))
          \cup V("C11", ToSet(I.obs.no) \cap here = {}, "a file of the source tree cannot be depended on: " \o Str(ToSet(I.obs.no) \cap here))

Judge ==
  /\ ph = 0 /\ ph' = 1 /\ UNCHANGED ti
  /\ LET v == Verdict(Items[ti]) IN
       IF v = {} THEN PrintT("ACCEPT " \o ToString(ti))
       ELSE PrintT("REJECT " \o ToJson([i |-> ti, why |-> v]))

Spec == Init /\ [][Judge]_<<ti, ph>>
=============================================================================
