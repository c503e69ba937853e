---------------------------- MODULE RecipesTrace ----------------------------
(* Judges which recipes maike2 ran, and with which settings. items.json is an *)
(* array of {"setup": see Recipes, "obs": {"exit0", "ran": number of runs,    *)
(* "runs": [{"src", "rec", "at", "cfg"}], "tagged": [{"src", ..}] (calls of   *)
(* get_tags)}}                                                                *)
EXTENDS Recipes, TLC, Json

CONSTANT Props
Items == JsonDeserialize("items.json")

VARIABLES ti, ph
Init == ti \in DOMAIN Items /\ ph = 0

V(ok, text) == IF ok THEN {} ELSE {"C18: " \o text}
Range(s) == {s[i] : i \in DOMAIN s}
Asc(x) == [x EXCEPT !.cfg = Read(x.cfg)]
Setup(J) ==
  [J EXCEPT !.conf = [r \in DOMAIN J.conf |-> [p \in DOMAIN J.conf[r] |->
                        [mode |-> J.conf[r][p].mode, val |-> Read(J.conf[r][p].val)]]],
            !.dir = Asc(J.dir), !.loaders = [l \in DOMAIN J.loaders |-> Asc(J.loaders[l])],
            !.files = [i \in DOMAIN J.files |-> [J.files[i] EXCEPT !.tag = Asc(J.files[i].tag)]]]

Verdict(S, O) ==
  IF MustFail(S)
  THEN V(~O.exit0, "maike2 goes on without a recipe, or with one that cannot be configured")
       \cup V(O.ran = 0, "recipes are run although another one is missing or cannot be configured")
  ELSE IF MayFail(S) /\ ~O.exit0 THEN {}
  ELSE IF \E i \in DOMAIN S.files : ~Sound(S, S.files[i]) THEN {}
  ELSE LET runs == {[r EXCEPT !.cfg = Read(r.cfg)] : r \in Range(O.runs)}
           of(src) == {[rec |-> r.rec, at |-> r.at, cfg |-> r.cfg] : r \in {r \in runs : r.src = src}}
           tags(src) == {[rec |-> r.rec, at |-> r.at, cfg |-> Read(r.cfg)] : r \in {r \in Range(O.tagged) : r.src = src}}
           check(got, want, src) ==
             V(Cardinality(got) = 1, "not run once for " \o src)
             \cup UNION {V(g.rec = want.rec /\ g.at = want.at, "the wrong recipe is run for " \o src \o ": "
                              \o g.rec \o " (" \o g.at \o ") instead of " \o want.rec \o " (" \o want.at \o ")")
                         \cup V(g.cfg = want.cfg, "the settings of " \o g.rec \o " for " \o src) : g \in got}
       IN V(O.exit0, "maike2 fails although every recipe is there")
          \cup (IF ~O.exit0 THEN {} ELSE
                UNION {check(of(S.files[i].src), FileCall(S, i), S.files[i].src) : i \in DOMAIN S.files}
                \cup check(of("."), DirCall(S), "the folder")
                \* a recipe is asked for tags by those who said so, with the settings of the loader
                \cup UNION {LET ld == S.loaders[S.files[i].loader]
                                w == Call(S, ld.rec, Configured(S, ld))
                                T == S.files[i].tag
                            IN IF T.there
                               THEN IF T.rec = "" \/ ~T.gt THEN {}
                                    ELSE V({[rec |-> t.rec, at |-> t.at] : t \in tags(S.files[i].src)} = {[rec |-> T.rec, at |-> Find(S, T.rec)]},
                                           "get_tags for " \o S.files[i].src)
                               ELSE IF ld.gt
                                    THEN V(tags(S.files[i].src) = {w}, "get_tags for " \o S.files[i].src)
                                    ELSE V(tags(S.files[i].src) = {}, "nobody wanted get_tags for " \o S.files[i].src)
                            : i \in DOMAIN S.files})

Judge ==
  /\ ph = 0 /\ ph' = 1 /\ UNCHANGED ti
  /\ LET v == Verdict(Setup(Items[ti].setup), Items[ti].obs) IN
       IF v = {} THEN PrintT("ACCEPT " \o ToString(ti))
       ELSE PrintT("REJECT " \o ToJson([i |-> ti, why |-> v]))

Spec == Init /\ [][Judge]_<<ti, ph>>
=============================================================================
