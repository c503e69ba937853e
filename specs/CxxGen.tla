------------------------------- MODULE CxxGen -------------------------------
(* What Cxx says about texts: all sequences of L chunks (chunks.json), framed *)
(* by a head and a foot, or those of texts.json if L is 0. Texts that are not *)
(* well-formed C++ are left out.                                              *)
EXTENDS Cxx, Json
CONSTANTS L, Kind
Input == JsonDeserialize("texts.json")   \* {"chunks": [..], "head": .., "foot": .., "texts": [..]}
VARIABLES t, ph
Init == /\ ph = 0
        /\ IF L = 0 THEN t \in {<<i>> : i \in DOMAIN Input.texts} ELSE t \in [1..L -> DOMAIN Input.chunks]
RECURSIVE Flat(_, _)
Flat(c, k) == IF k > Len(c) THEN <<>> ELSE Input.chunks[c[k]] \o Flat(c, k + 1)
Text == Input.head \o (IF L = 0 THEN Input.texts[t[1]] ELSE Flat(t, 1)) \o Input.foot
Emit == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED t
        /\ LET m == CASE Kind = "cxx" -> Meaning(Text) [] Kind = "rule" -> MeaningRule(Text) [] OTHER -> MeaningExt(Text) IN
             m.ok => PrintT("M " \o ToJson([t |-> t, inc |-> m.inc, tags |-> m.tags]))
Spec == Init /\ [][Emit]_<<t, ph>>
=============================================================================
