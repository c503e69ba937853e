------------------------------- MODULE Tools --------------------------------
(* What the recipes of the installation have the tools do. A project is that  *)
(* of Graph, with kinds "cxx" (compile), "link" (compile, link and run),      *)
(* "rule" (link a program), "lib" (make an archive), "gen" (copy), "cmd" (run *)
(* a command of the configuration), "md", "doc" and "sass" (converters), and  *)
(*   set       kind -> [cflags, iquote, std], the settings for "cxx", "link"  *)
(*             and "rule"; std is [there, min, max, def]: the language        *)
(*             revisions that will do (0: no limit), and whether only the     *)
(*             default compiler may be used                                   *)
(*   cxx, ar   the default compiler and the archiver                          *)
(*   compilers sequence of [n, acc]: acc are the revisions it accepts, as     *)
(*             [s |-> option ("-" for none), v |-> what it says it is]        *)
(*   alt       the names of the compilers that may replace the default one    *)
(*   pkg       sequence of [n, cflags, libs, dirs]                            *)
(*   cmd       the command's arguments: [t |-> text, w |-> "", "src" or       *)
(*             "target"], what follows the text                               *)
(*   fails     files whose tool fails; missing: tools that are not there      *)
(* Every file has its own set as well, added to that of its kind.             *)
EXTENDS Graph, TLC

ToolKinds == {"cxx", "link", "rule", "lib", "cmd", "md", "doc"}
Compiled == {"cxx", "link"}
Linked == {"link", "rule"}

RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o "/" \o Join(Tail(s))

RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>>
            ELSE LET d == Dedup(Front(s)) IN IF s[Len(s)] \in Range(d) THEN d ELSE Append(d, s[Len(s)])
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Only(s, S) == SelectSeq(s, LAMBDA x : x \in S)

(* ---- what is to be told apart by the properties of a dependency *)
Rel(d, x) == <<"rel", x>> \in d.pr
Own(d) == d.o \in {"generated", "project"}
IsInclude(d) == d.o # "pkg-config" /\ Rel(d, "include")
IsImpl(d) == Own(d) /\ Rel(d, "implementation")
IsLib(d) == d.o = "system" /\ Rel(d, "external")
IsPkg(d) == d.o = "pkg-config"

(* Everything file i depends on, with all that is said about it. *)
Said(G, n) == LET want == G.after[n] IN {d \in UNION {G.out[m] : m \in want \cup {n}} : d.to \in want}
(* The graph, with what follows from it worked out once. *)
Worked(P) == LET g == TLCEval(GraphOf(P))
                 nx == TLCEval(Next(g))
             IN TLCEval([bad |-> IllFormed(g), nodes |-> g.nodes, out |-> g.out, src |-> g.src,
                         after |-> [n \in g.nodes |-> Reach(nx, nx[n])]])
(* All say so, and some say so: what is told when they disagree is open. *)
Must(S, Q(_)) == {d.to : d \in {d \in S : \A e \in S : e.to = d.to => Q(e)}}
May(S, Q(_)) == {d.to : d \in {d \in S : Q(d)}}

(* ---- language revision *)
Revision == {[s |-> "c++98", v |-> 199711], [s |-> "c++11", v |-> 201103], [s |-> "c++14", v |-> 201402],
             [s |-> "c++17", v |-> 201703], [s |-> "c++20", v |-> 202002], [s |-> "c++23", v |-> 202302]}
Fits(r, v) == (r.min = 0 \/ v >= r.min) /\ (r.max = 0 \/ v <= r.max)
Usable(P, r) == {c \in Range(P.compilers) : c.n \in IF r.def THEN {P.cxx} ELSE Range(P.alt)}
(* The compilers, with an option for the revision or without, that meet the   *)
(* limits according to what they say themselves,                              *)
Good(P, r) == UNION {{<<c.n, a.s>> : a \in {a \in Range(c.acc) : Fits(r, a.v)}} : c \in Usable(P, r)}
(* and those that accept an option for a revision within the limits.          *)
Nominal(P, r) == UNION {{<<c.n, a.s>> : a \in {a \in Range(c.acc) : \E x \in Revision : x.s = a.s /\ Fits(r, x.v)}}
                        : c \in Usable(P, r)}
Impossible(P, r) == r.there /\ ((r.min # 0 /\ r.max # 0 /\ r.min > r.max) \/ (Good(P, r) = {} /\ Nominal(P, r) = {}))
(* A compiler's own choice is kept if it is within the limits; otherwise it is *)
(* told the limit that is violated.                                           *)
Nearest(P, r, tool, std) ==
  LET own == {a.v : a \in {a \in UNION {Range(c.acc) : c \in {c \in Range(P.compilers) : c.n = tool}} : a.s = "-"}}
      opt(v) == {x.s : x \in {x \in Revision : x.v = v}}
  IN \A d \in own : \/ std \in (IF d < r.min THEN opt(r.min) ELSE IF r.max # 0 /\ d > r.max THEN opt(r.max) ELSE {"-"})
                    \/ (r.min = r.max /\ std \in opt(r.min))
RightCompiler(P, r, tool, std) ==
  IF ~r.there THEN tool = P.cxx /\ std = "-"
  ELSE IF ~Nearest(P, r, tool, std) THEN FALSE
  ELSE IF Good(P, r) # {} THEN <<tool, std>> \in Good(P, r)
  ELSE <<tool, std>> \in Nominal(P, r)

(* ---- flags and folders *)
PkgNames(S) == {d.to[1] : d \in {d \in S : IsPkg(d)}}
PkgOf(P, S) == {p \in Range(P.pkg) : p.n \in PkgNames(S)}
NoPkg(P, S) == PkgNames(S) \ {p.n : p \in Range(P.pkg)}
Flags(P, F) == P.set[F.k].cflags \o F.set.cflags
Folders(P, F) ==
  LET items == <<Dir(F)>> \o P.set[F.k].iquote \o F.set.iquote
  IN Dedup(Flat([k \in DOMAIN items |-> <<Name(P.sd \o Norm(items[k])), Name(P.td \o Norm(items[k]))>>]))

(* ---- failing *)
Tool(P, F) == CASE F.k \in {"cxx", "link", "rule"} -> P.cxx
                [] F.k = "lib" -> P.ar [] F.k = "cmd" -> "conv" [] F.k = "md" -> "pandoc" [] F.k = "doc" -> "xsltproc"
                [] OTHER -> ""
TargetsOf(P, F) == [k \in DOMAIN F.targets |-> TargetName(P, F, F.targets[k])]
Runs(F) == F.k \in ToolKinds /\ F.targets # <<>>
Fails(P, G, i) ==
  LET F == P.files[i] IN
  \/ (F.p \in Range(P.fails) /\ F.targets # <<>>)
  \/ (Runs(F) /\ (Tool(P, F) \in Range(P.missing)
                  \/ (F.k \in Compiled \cup {"rule"} /\ NoPkg(P, Said(G, G.src[i])) # {})))
Needs(P, G, i, j) == \E t \in Range(TargetsOf(P, P.files[j])) : t \in G.after[G.src[i]]
=============================================================================
