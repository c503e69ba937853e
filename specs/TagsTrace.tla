------------------------------ MODULE TagsTrace ------------------------------
(* Judges what maike2 made of tags. items.json is an array of                 *)
(*  {"files": [{"id", "tokens", "supplied": by a recipe}],                    *)
(*   "good": target names, "recipes": recipes that are there,                 *)
(*   "obs": {"exit0", "ran": how many recipes were run, "named": ids named on *)
(*           standard error, "targets": [{"id", "names"}] of the files        *)
(*           recipes were run for}}                                           *)
EXTENDS Tags, TLC, Json

Items == JsonDeserialize("items.json")
ToSet(s) == {s[i] : i \in DOMAIN s}

VARIABLES ti, ph
Init == ti \in DOMAIN Items /\ ph = 0

V(ok, text) == IF ok THEN {} ELSE {"C21: " \o text}

Verdict(I) ==
  LET n == DOMAIN I.files
      read == [i \in n |-> Read1(I.files[i].tokens)]
      well == [i \in n |-> read[i].ok /\ TagsOk(read[i].v, I.files[i].supplied)]
      bad == {I.files[i].id : i \in {i \in n : ~well[i]}}
      odd == \E i \in n : well[i] /\ UnknownWord(read[i].v, I.files[i].supplied)
      good == ToSet(I.good)
      closed == /\ \A i \in n : well[i] /\ Closed(read[i].v, I.files[i].supplied, good, ToSet(I.recipes))
                /\ \A i, j \in n : i # j => ToSet(Names(read[i].v)) \cap ToSet(Names(read[j].v)) = {}
      named == ToSet(I.obs.named)
  IN V(bad = {} \/ ~I.obs.exit0, "ill-formed tags are accepted: " \o ToString(bad))
     \cup V(~odd \/ ~I.obs.exit0, "an unknown word is accepted")
     \cup V((bad = {} /\ ~odd) \/ I.obs.ran = 0, "a recipe is run in spite of ill-formed tags")
     \cup V(bad \subseteq named, "ill-formed tags are not reported: " \o ToString(bad \ named))
     \cup V(bad = {} \/ named \subseteq bad, "well-formed tags are reported: " \o ToString(named \ bad))
     \cup V(closed => I.obs.exit0, "well-formed tags are rejected")
     \cup (IF closed /\ I.obs.exit0
           THEN LET want == {<<I.files[i].id, ToSet(Names(read[i].v))>> : i \in {i \in n : Names(read[i].v) # <<>>}}
                    got == {<<I.obs.targets[i].id, ToSet(I.obs.targets[i].names)>> : i \in DOMAIN I.obs.targets}
                IN V(want = got, "the targets are not those of the tags: " \o ToString(want \ got) \o " but " \o ToString(got \ want))
           ELSE {})

Judge ==
  /\ ph = 0 /\ ph' = 1 /\ UNCHANGED ti
  /\ LET v == Verdict(Items[ti]) IN
       IF v = {} THEN PrintT("ACCEPT " \o ToString(ti))
       ELSE PrintT("REJECT " \o ToJson([i |-> ti, why |-> v]))

Spec == Init /\ [][Judge]_<<ti, ph>>
=============================================================================
