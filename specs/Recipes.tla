------------------------------ MODULE Recipes -------------------------------
(* Which recipe is run for a source file, and with which settings.            *)
(* A setup S is a record of                                                   *)
(*   where    function: recipe name -> [proj |-> "file", "dir" or "none",     *)
(*            sys |-> BOOLEAN], what there is in the source folder and in the *)
(*            installation                                                    *)
(*   conf     function: <<recipe name, place>> -> [mode |-> .., val |-> ..],  *)
(*            what the recipe does when it is asked to configure itself:      *)
(*            "none" prints nothing, "fixed" prints val, "wrap" prints what   *)
(*            it got and its name, "fail" fails                               *)
(*   dir      settings for folders; loaders: function name -> settings        *)
(*   files    sequence of [src, loader, tag |-> settings or NoTag]            *)
(*   label    how each copy of a recipe calls itself                          *)
(* Settings are [rec |-> recipe name or "", cfg |-> value, gt |-> whether it  *)
(* is asked for tags].                                                        *)
EXTENDS Values

NoTag == [rec |-> "", cfg |-> Obj({}), there |-> FALSE, gt |-> FALSE]

Find(S, r) == IF S.where[r].proj = "file" THEN "proj"
              ELSE IF S.where[r].sys THEN "sys" ELSE "none"
Label(S, r) == S.label[r][Find(S, r)]
Works(S, r) == r = "" \/ (Find(S, r) # "none" /\ S.conf[r][Find(S, r)].mode # "fail")
Configured(S, s) ==
  IF s.rec = "" THEN s.cfg
  ELSE LET c == S.conf[s.rec][Find(S, s.rec)]
       IN CASE c.mode = "none" -> s.cfg
            [] c.mode = "fixed" -> c.val
            [] c.mode = "wrap" -> Obj({<<"got", s.cfg>>, <<"by", Str(Label(S, s.rec))>>})

Needed(S) == {S.dir.rec} \cup {S.loaders[S.files[i].loader].rec : i \in DOMAIN S.files}
             \cup {S.files[i].tag.rec : i \in DOMAIN S.files}
MustFail(S) == \E r \in Needed(S) : ~Works(S, r)
MayFail(S) == \E l \in DOMAIN S.loaders : ~Works(S, S.loaders[l].rec)

(* What is run for file i: the recipe, where it is, and its settings. *)
Recipe(S, F) == IF F.tag.rec # "" THEN F.tag.rec ELSE S.loaders[F.loader].rec
Settings(S, F) == Merge(Configured(S, S.loaders[F.loader]), Configured(S, F.tag))
Sound(S, F) == Fit(Configured(S, S.loaders[F.loader]), Configured(S, F.tag))
Place(S, r) == IF r = "" THEN "self" ELSE Find(S, r)
Call(S, r, cfg) == [rec |-> r, at |-> Place(S, r), cfg |-> cfg]
FileCall(S, i) == Call(S, Recipe(S, S.files[i]), Settings(S, S.files[i]))
DirCall(S) == Call(S, S.dir.rec, Configured(S, S.dir))
=============================================================================
