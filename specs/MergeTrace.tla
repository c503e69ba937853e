------------------------------ MODULE MergeTrace ------------------------------
(* Judges dumped configurations. items.json is an array of                    *)
(*   {"files": [value] (what the configuration files contain, in order),      *)
(*    "exit0", "dump": value, "again": value (the dump of that dump),         *)
(*    "same": BOOLEAN (both dumps have the same bytes)}                       *)
EXTENDS Values, TLC, Json

CONSTANT Props
Items == JsonDeserialize("items.json")

VARIABLES ti, ph
Init == ti \in DOMAIN Items /\ ph = 0

(* The settings maike2 knows, with defaults. *)
Or(v, key, d) == IF Has(v, key) THEN Get(v, key) ELSE d
Flag(v) == IF v.s = "0" THEN Int("0") ELSE Int("1")
Compiler(v) == Obj({<<"recipe", Or(v, "recipe", Str(""))>>, <<"config", Get(v, "config")>>,
                    <<"use_get_tags", Flag(Or(v, "use_get_tags", Int("0")))>>})
Only(v, keys) == Obj({p \in v.o : p[1] \in keys})
LoaderCfg(v) ==
  LET ld == Get(v, "loader").s
      cf == Or(v, "config", Obj({}))
  IN CASE ld = "cxx_src_loader" -> Only(cf, {"generated_includes"})
       [] ld = "generic" -> Obj({<<"target_filename_ext", Get(cf, "target_filename_ext")>>,
                                 <<"filename_ext_replacement_mode", Or(cf, "filename_ext_replacement_mode", Str("append"))>>})
       [] OTHER -> Obj({})
Loader(v) == Obj({<<"loader", Get(v, "loader")>>, <<"compiler", Compiler(Get(v, "compiler"))>>, <<"config", LoaderCfg(v)>>})
Known(c) ==
  LET m == Get(c, "maikeconfig")
      t == Get(m, "source_tree_loader")
  IN Obj({<<"maikeconfig", Obj({
       <<"dir_compiler", Compiler(Get(m, "dir_compiler"))>>,
       <<"source_file_info_loaders", Obj({<<p[1], Loader(p[2])>> : p \in Get(m, "source_file_info_loaders").o})>>,
       <<"source_tree_loader", Obj({<<"recursive", Flag(Get(t, "recursive"))>>,
                                    <<"file_info_loaders", Get(t, "file_info_loaders")>>,
                                    <<"input_filter", Get(t, "input_filter")>>,
                                    <<"fullpath_input_filter", Get(t, "fullpath_input_filter")>>})>>})>>})

V(ok, text) == IF ok THEN {} ELSE {"C14: " \o text}

RECURSIVE Diff(_, _, _)
Diff(v, w, at) ==
  IF v = w THEN {}
  ELSE IF IsObj(v) /\ IsObj(w)
  THEN {at \o "/" \o key \o " is lost" : key \in Keys(v) \ Keys(w)}
       \cup {at \o "/" \o key \o " comes from nowhere" : key \in Keys(w) \ Keys(v)}
       \cup UNION {Diff(Get(v, key), Get(w, key), at \o "/" \o key) : key \in Keys(v) \cap Keys(w)}
  ELSE {at \o " differs"}

Verdict(I) ==
  LET want == Known(MergeAll([i \in DOMAIN I.files |-> Read(I.files[i])]))
      got == Read(I.dump)
  IN V(I.exit0, "the configuration is not dumped")
     \cup V(~I.exit0 \/ got = want, "the configuration is not the merged one: " \o ToString(Diff(want, got, "")))
     \cup V(~I.exit0 \/ Read(I.again) = got, "a dumped configuration means something else: " \o ToString(Diff(got, Read(I.again), "")))
     \cup V(~I.exit0 \/ I.same, "a dumped configuration gives another dump")

Judge ==
  /\ ph = 0 /\ ph' = 1 /\ UNCHANGED ti
  /\ LET v == Verdict(Items[ti]) IN
       IF v = {} THEN PrintT("ACCEPT " \o ToString(ti))
       ELSE PrintT("REJECT " \o ToJson([i |-> ti, why |-> v]))

Spec == Init /\ [][Judge]_<<ti, ph>>
=============================================================================
