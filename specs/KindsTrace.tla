----------------------------- MODULE KindsTrace -----------------------------
(* Judges what maike2 found in files of all kinds. items.json is an array of  *)
(*   {"kind", "name", "out", "gen", "text", "paths": {symbol: characters},    *)
(*    "obs": {"ok", "includes": [[origin, symbol]], "tags", "names", "other"  *)
(*            (how many other dependencies and targets it has)}}              *)
(* With Phase "select", it prints which of the files are well formed.         *)
EXTENDS Kinds, Json

CONSTANTS Props, Phase
Items == JsonDeserialize("items.json")

VARIABLES ti, ph
Init == ti \in DOMAIN Items /\ ph = 0

V(ok, text) == IF ok THEN {} ELSE {"C27: " \o text}
(* Tags are: T0 first, then any of T1 to T9, each once, and TE last. *)
WellFormed(F) ==
  LET m == Means(F)
      t == m.tags
      mid == SubSeq(t, 2, Len(t) - 1)
  IN /\ m.ok
     /\ F.kind \in {"append", "replace", "same"}
        \/ (Len(t) > 1 /\ t[1] = "T0" /\ t[Len(t)] = "TE" /\ ToSet(mid) \subseteq {"T" \o ToString(k) : k \in 1..9}
            /\ Cardinality(ToSet(mid)) = Len(mid))
     /\ \A x \in m.inc : x[2] \in DOMAIN F.paths

Verdict(F) ==
  LET D == Declared(F, F.paths)
      inc == {<<x[1], x[2]>> : x \in ToSet(F.obs.includes)}
  IN IF ~F.obs.ok THEN {"C27: a well-formed file is not accepted"}
     ELSE V(inc = D.includes, "includes " \o ToString(inc) \o ", not " \o ToString(D.includes))
          \cup V(ToSet(F.obs.tags) = D.tags \ {"TE"}, "tags " \o ToString(ToSet(F.obs.tags)) \o ", not " \o ToString(D.tags))
          \cup V(ToSet(F.obs.names) = D.names, "targets " \o ToString(ToSet(F.obs.names)) \o ", not " \o ToString(D.names))
          \cup V(F.obs.other = 0, "there are other dependencies or targets")

Judge ==
  /\ ph = 0 /\ ph' = 1 /\ UNCHANGED ti
  /\ LET v == IF Phase = "select" THEN (IF WellFormed(Items[ti]) THEN {} ELSE {"ill-formed"}) ELSE Verdict(Items[ti]) IN
       IF v = {} THEN PrintT("ACCEPT " \o ToString(ti))
       ELSE PrintT("REJECT " \o ToJson([i |-> ti, why |-> v]))

Spec == Init /\ [][Judge]_<<ti, ph>>
=============================================================================
