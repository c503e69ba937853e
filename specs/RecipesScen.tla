---------------------------- MODULE RecipesScen -----------------------------
(* Every small setup of two recipes and a file, and what has to hold for all  *)
(* of them whatever Recipes defines.                                          *)
EXTENDS Recipes, TLC, Json

Names == {"ra", "rb"}
W(p, s) == [proj |-> p, sys |-> s]
Wheres == {W("file", FALSE), W("none", TRUE), W("file", TRUE), W("dir", TRUE), W("none", FALSE)}
Modes == {"none", "fixed", "wrap", "fail"}
Cfg(n) == Obj({<<"k", Int(n)>>, <<"o", Obj({<<n, Int(n)>>})>>, <<"l", Arr(<<Int(n)>>)>>})
Conf(m, n) == [mode |-> m, val |-> Cfg(n)]

VARIABLES where, ma, mb, tag, ld, gt, done
vars == <<where, ma, mb, tag, ld, gt, done>>
Tags == {NoTag} \cup {[rec |-> r, cfg |-> c, there |-> TRUE, gt |-> FALSE] : r \in {"", "ra", "rb"}, c \in {Obj({}), Cfg("3")}}
Init == /\ where \in [Names -> Wheres] /\ ma \in Modes /\ mb \in Modes /\ tag \in Tags
        /\ ld \in {"ra", "rb"} /\ gt \in BOOLEAN /\ done = FALSE

S == [where |-> where,
      \* the two copies of a recipe do not do the same
      conf |-> [r \in Names |-> IF r = "ra" THEN [proj |-> Conf(ma, "4"), sys |-> Conf(IF ma = "fail" THEN "wrap" ELSE "fixed", "5")]
                                ELSE [proj |-> Conf(mb, "6"), sys |-> Conf(mb, "7")]],
      label |-> [r \in Names |-> [proj |-> r, sys |-> r \o "@"]],
      dir |-> [rec |-> "rb", cfg |-> Cfg("1")],
      loaders |-> [l \in {"l"} |-> [rec |-> ld, cfg |-> Cfg("2"), gt |-> gt]],
      files |-> <<[src |-> "f.rr", loader |-> "l", tag |-> tag]>>]

F == S.files[1]
Laws ==
  MustFail(S) \/
  \* the settings keep what the loader's recipe said and the tag does not touch, and the tag's word is the last
  /\ \A key \in Keys(Configured(S, F.tag)) :
       Has(Settings(S, F), key)
       /\ LET v == Get(Configured(S, F.tag), key) IN IsObj(v) \/ IsArr(v) \/ Get(Settings(S, F), key) = v
  /\ Keys(Configured(S, S.loaders["l"])) \subseteq Keys(Settings(S, F))
  /\ ~F.tag.there => Settings(S, F) = Configured(S, S.loaders["l"])
  /\ FileCall(S, 1).at \in {"proj", "sys"}
  /\ where[Recipe(S, F)].proj = "file" => FileCall(S, 1).at = "proj"
  /\ F.tag.rec # "" => FileCall(S, 1).rec = F.tag.rec

Emit == /\ ~done /\ done' = TRUE /\ UNCHANGED <<where, ma, mb, tag, ld, gt>>
        /\ PrintT("SCEN " \o ToJson([S EXCEPT
             !.conf = [r \in Names |-> [p \in {"proj", "sys"} |-> [mode |-> S.conf[r][p].mode, val |-> Write(S.conf[r][p].val)]]],
             !.dir = [rec |-> "rb", cfg |-> Write(Cfg("1"))],
             !.loaders = [l \in {"l"} |-> [rec |-> ld, gt |-> gt, cfg |-> Write(Cfg("2"))]],
             !.files = <<[src |-> "f.rr", loader |-> "l", tag |-> [tag EXCEPT !.cfg = Write(tag.cfg)]]>>]))
Spec == Init /\ [][Emit]_vars
=============================================================================
