----------------------------- MODULE ToolTrace ------------------------------
(* Judges builds with the recipes of the installation: items.json is an array *)
(* of {"p": project, "obs": .., "part": a build after a change}; obs has      *)
(*   exit0, again (runs of tools in a second build)            *)
(*   invs      the runs of tools, as lib/toolfam.py reads their arguments     *)
(*   ids       [n, task, ok], the number and outcome of each task              *)
(*   missing, differ, wrong  targets that are not there, that are not as the  *)
(*             first target of their file, that do not have the right content *)
EXTENDS Tools, Json

CONSTANT Props
Items == JsonDeserialize("items.json")

VARIABLES ti, ph
Init == ti \in DOMAIN Items /\ ph = 0

V(prop, ok, text) == IF prop \in Props /\ ~ok THEN {prop \o ": " \o text} ELSE {}
Str(x) == ToString(x)

Between(lo, x, hi) == lo \subseteq x /\ x \subseteq hi
Once(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j

(* no file comes before one that needs it *)
Ordered(G, s) == \A i, j \in DOMAIN s : i < j /\ s[j] \in G.nodes => s[i] \notin G.after[s[j]]

Compile(P, O, G, i, v) ==
  LET F == P.files[i]
      S == Said(G, G.src[i])
      fl == Flags(P, F)
      pk == UNION {Range(p.cflags) : p \in PkgOf(P, S)}
      at == "for " \o Str(G.src[i]) \o ": "
  IN V("C23", RightCompiler(P, P.set[F.k].std, v.tool, v.std), at \o "wrong compiler or language revision " \o v.tool \o " " \o v.std)
     \cup V("C23", Range(v.flags) = Range(fl) \cup pk, at \o "flags " \o Str(v.flags) \o " instead of " \o Str(fl) \o " and " \o Str(pk))
     \cup V("C23", Only(Dedup(v.flags), Range(fl) \ pk) = Only(Dedup(fl), Range(fl) \ pk), at \o "the flags are not in the order of the settings")
     \cup V("C23", Dedup(v.iq) = Folders(P, F), at \o "include folders " \o Str(v.iq) \o " instead of " \o Str(Folders(P, F)))
     \cup V("C23", Between(Must(S, IsInclude), Range(v.incl), May(S, IsInclude)), at \o "included beforehand: " \o Str(v.incl)
              \o " instead of " \o Str(Must(S, IsInclude)))
     \cup V("C23", v.c = (F.k = "cxx"), at \o "linked or not")
     \cup V("C23", v.color = <<P.color>>, at \o "colours " \o Str(v.color))
     \cup V("C23", v.start = P.start \o "L" /\ v.startstr = "\"" \o P.startstr \o "\"" /\ v.bid = "\"" \o P.id \o "\""
                   /\ v.tdir = Name(P.td) /\ v.sdir = Name(P.sd), at \o "wrong description of the build")
     \cup V("C23", P.color = "always" \/ \E x \in Range(O.ids) : x.n = G.src[i] /\ x.task = v.task, at \o "wrong task number " \o v.task)
     \cup V("C23", F.k = "link" \/ v.inputs = <<G.src[i]>>, at \o "wrong source files " \o Str(v.inputs))
     \cup V("C23", v.out = TargetsOf(P, F)[1], at \o "wrong output file")

(* the libraries that n needs, as far as the program that S is about gets them *)
LibsOf(P, G, n, S) ==
  LET after == G.after[n]
  IN {"-l" \o Join(m) : m \in {m \in after : m \in Must(S, IsLib)}}
     \cup UNION {Range(p.libs) : p \in {p \in Range(P.pkg) : \E d \in S : IsPkg(d) /\ d.to = <<p.n>> /\ d.to \in after}}

Link(P, G, i, v) ==
  LET F == P.files[i]
      S == Said(G, G.src[i])
      me == IF F.k = "link" THEN {G.src[i]} ELSE {}
      pkg == PkgOf(P, S)
      at == "for " \o Str(G.src[i]) \o ": "
      lib(s) == {"-l" \o Join(n) : n \in s}
      pl == UNION {Range(p.libs) : p \in pkg}
  IN V("C24", Between(Must(S, IsImpl) \cup me, Range(v.inputs), May(S, IsImpl) \cup me),
          at \o "made from " \o Str(v.inputs) \o " instead of " \o Str(Must(S, IsImpl) \cup me))
     \cup V("C24", Once(v.inputs), at \o "made from the same file twice: " \o Str(v.inputs))
     \cup V("C24", Ordered(G, v.inputs), at \o "a file comes before one that needs it: " \o Str(v.inputs))
     \cup V("C24", Between(lib(Must(S, IsLib)) \cup pl, Range(v.libs), lib(May(S, IsLib)) \cup pl),
          at \o "libraries " \o Str(v.libs) \o " instead of " \o Str(lib(Must(S, IsLib)) \cup pl))
     \cup V("C24", \A a, b \in DOMAIN v.seq : a < b /\ v.seq[a].l # "" /\ v.seq[b].n \in G.nodes
                      => v.seq[a].l \notin LibsOf(P, G, v.seq[b].n, S),
          at \o "a library comes before a file that needs it: " \o Str(v.seq))
     \cup V("C24", Once(v.libs), at \o "the same library twice: " \o Str(v.libs))
     \cup V("C24", \A p \in pkg : Only(v.libs, Range(p.libs)) = p.libs, at \o "the libraries of a package are not in its order")
     \cup V("C24", Range(v.dirs) = UNION {Range(p.dirs) : p \in pkg}, at \o "wrong folders of libraries")
     \cup (IF F.k = "link" THEN {}
           ELSE V("C24", v.tool = P.cxx, at \o "wrong linker")
                \cup V("C24", v.flags = Flags(P, F), at \o "linked with " \o Str(v.flags) \o " instead of " \o Str(Flags(P, F)))
                \cup V("C24", ~v.c, at \o "not linked"))

Archive(P, G, i, v) ==
  LET S == Said(G, G.src[i])
      at == "for " \o Str(G.src[i]) \o ": "
  IN V("C24", v.tool = P.ar, at \o "wrong archiver")
     \cup V("C24", Between(Must(S, IsImpl), Range(v.inputs), May(S, IsImpl)),
          at \o "made from " \o Str(v.inputs) \o " instead of " \o Str(Must(S, IsImpl)))
     \cup V("C24", Once(v.inputs), at \o "made from the same file twice: " \o Str(v.inputs))
     \cup V("C24", Ordered(G, v.inputs), at \o "a file comes before one that needs it: " \o Str(v.inputs))

Command(P, G, i, v) ==
  LET F == P.files[i]
      arg(a) == [t |-> a.t, n |-> CASE a.w = "" -> <<>> [] a.w = "src" -> G.src[i] [] OTHER -> TargetsOf(P, F)[1]]
      want == [k \in DOMAIN P.cmd |-> arg(P.cmd[k])]
  IN V("C24", v.args = want, "for " \o Str(G.src[i]) \o ": command run with " \o Str(v.args) \o " instead of " \o Str(want))

(* The runs of tools that belong to file i, and those of the program made. *)
Mine(P, O, G, i) ==
  LET F == P.files[i] IN
  {k \in DOMAIN O.invs :
     /\ O.invs[k].tool # "run"
     /\ \/ O.invs[k].out \in Range(TargetsOf(P, F))
        \/ F.k = "md" /\ \E a \in Range(O.invs[k].args) : a.n = G.src[i]}
RunsOf(P, O, i) == {k \in DOMAIN O.invs : O.invs[k].tool = "run" /\ O.invs[k].out \in Range(TargetsOf(P, P.files[i]))}

OfFile(P, O, G, i) ==
  LET F == P.files[i]
      m == Mine(P, O, G, i)
      v == O.invs[CHOOSE k \in m : TRUE]
      prop == IF F.k \in Compiled THEN "C23" ELSE "C24"
  IN IF m = {} THEN {}
     ELSE IF Cardinality(m) > 1 THEN V(prop, FALSE, "more than one run of a tool for " \o Str(G.src[i]))
     ELSE (IF F.k \in Compiled THEN Compile(P, O, G, i, v) ELSE {})
          \cup (IF F.k \in Linked THEN Link(P, G, i, v) ELSE {})
          \cup (IF F.k = "lib" THEN Archive(P, G, i, v) ELSE {})
          \cup (IF F.k = "cmd" THEN Command(P, G, i, v) ELSE {})
          \cup V("C24", F.k = "link" \/ RunsOf(P, O, i) = {}, "a program is run for " \o Str(G.src[i]))

Verdict(P, O, part) ==
  LET G == Worked(P)
      tools == {i \in DOMAIN P.files : Runs(P.files[i])}
      fail == {i \in DOMAIN P.files : Fails(P, G, i)}
      stop == \E i \in tools : P.files[i].k \in Compiled /\ Impossible(P, P.set[P.files[i].k].std)
      might == \E k \in Compiled : Impossible(P, P.set[k].std)
      held == {i \in tools : \E j \in fail : Needs(P, G, i, j)}
      mine == [i \in tools |-> Mine(P, O, G, i)]
  IN IF G.bad
     THEN V("C24", ~O.exit0 /\ O.invs = <<>>, "built in spite of an ill-formed dependency graph")
     ELSE IF stop
     THEN V("C23", ~O.exit0, "built though no compiler meets the limits on the language revision")
          \cup V("C23", O.invs = <<>>, "tools are run though no compiler meets the limits on the language revision")
     ELSE IF might /\ ~O.exit0 /\ O.invs = <<>> THEN {}
     ELSE UNION {OfFile(P, O, G, i) : i \in tools}
          \cup V("C24", (UNION {mine[i] \cup RunsOf(P, O, i) : i \in tools}) = DOMAIN O.invs, "a tool is run for no file")
          \cup (IF fail # {}
                THEN V("C24", ~O.exit0, "success is reported though the tool fails for "
                              \o Str({G.src[i] : i \in fail}))
                     \cup UNION {V("C24", \A x \in Range(O.ids) : x.n = G.src[i] => ~x.ok,
                                   "the log says " \o Str(G.src[i]) \o " succeeded though its tool fails") : i \in fail}
                     \cup V("C24", \A i \in held : mine[i] = {}, "a tool is run that needs the output of one that fails: "
                              \o Str({G.src[i] : i \in {i \in held : mine[i] # {}}}))
                ELSE V("C24", O.exit0, "the build fails though all tools succeed")
                     \cup UNION {V(IF P.files[i].k \in Compiled THEN "C23" ELSE "C24", part \/ mine[i] # {},
                                   "no tool is run for " \o Str(G.src[i])) : i \in tools}
                     \cup UNION {V("C24", P.files[i].k # "link" \/ Cardinality(RunsOf(P, O, i)) = (IF mine[i] = {} THEN 0 ELSE 1),
                                   "the program is not run exactly once for " \o Str(G.src[i])) : i \in tools}
                     \cup V("C24", O.missing = <<>>, "targets are not made: " \o Str(O.missing))
                     \cup V("C24", O.differ = <<>>, "targets of the same file differ: " \o Str(O.differ))
                     \cup V("C24", O.wrong = <<>>, "targets have the wrong content: " \o Str(O.wrong))
                     \cup V("C24", O.again = 0, "tools are run again though nothing has changed, or the second build fails"))

Judge ==
  /\ ph = 0 /\ ph' = 1 /\ UNCHANGED ti
  /\ LET v == Verdict(Items[ti].p, Items[ti].obs, Items[ti].part) IN
       IF v = {} THEN PrintT("ACCEPT " \o ToString(ti))
       ELSE PrintT("REJECT " \o ToJson([i |-> ti, why |-> v]))

Spec == Init /\ [][Judge]_<<ti, ph>>
=============================================================================
