--------------------------------- MODULE Job ---------------------------------
(* What an invocation of maike2 means: how its command line is understood,    *)
(* whether it answers a question or builds, and what the recipes and the user *)
(* are told about the build. The state is what earlier invocations did:       *)
(*   built  the <<source folder, target folder, file>> that are built         *)
(*   dirs   the folders there are below the current one                       *)
(*   ids    the build ids used                                                *)
(* An argument list is a sequence of strings.                                 *)
EXTENDS Paths, Integers, TLC

Ch(s, i) == SubSeq(s, i, i)
Chars(s) == {Ch(s, i) : i \in 1..Len(s)}
From2(s, i) == SubSeq(s, i, Len(s))
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Nines == "0123456789"
Num(c) == (CHOOSE i \in 1..10 : Ch(Nines, i) = c) - 1

Queries == {"--help", "--version", "--about", "--configdump", "--list-targets", "--print-dep-graph", "--print-dep-graph-inv"}
Unanswered == {"--dump-database", "--list-external-deps"}
Type ==
  [n \in Queries \cup Unanswered |-> "out"]
  @@ [n \in {"--dry-run", "--force-rebuild", "--config-default"} |-> "flag"]
  @@ [n \in {"--source-dir", "--target-dir"} |-> "dir"]
  @@ [n \in {"--targets", "--configfiles"} |-> "list"]
  @@ ("--build-id" :> "id" @@ "--start-time" :> "time" @@ "--num-workers" :> "count"
      @@ "--log-level" :> "level" @@ "--log-output-format" :> "format")
Names == DOMAIN Type

(* ------------------------------------------------------------ the values   *)
Ok(v) == [st |-> "ok", v |-> v]
Bad == [st |-> "bad", v |-> ""]
Open == [st |-> "open", v |-> ""]   \* what is not said anywhere

Lower == [c \in Digits \cup {"a", "b", "c", "d", "e", "f"} |-> c]
         @@ ("A" :> "a" @@ "B" :> "b" @@ "C" :> "c" @@ "D" :> "d" @@ "E" :> "e" @@ "F" :> "f")
RECURSIVE Lowered(_)
Lowered(s) == IF s = "" THEN "" ELSE Lower[Ch(s, 1)] \o Lowered(From2(s, 2))
ParseId(s) == IF Chars(s) \subseteq DOMAIN Lower /\ Len(s) = 64 THEN Ok(Lowered(s)) ELSE Bad

Number(s) == s # "" /\ Chars(s) \subseteq Digits /\ (Ch(s, 1) # "0" \/ s = "0")
RECURSIVE LeqDigits(_, _)
LeqDigits(a, b) == a = "" \/ Num(Ch(a, 1)) < Num(Ch(b, 1)) \/ (Ch(a, 1) = Ch(b, 1) /\ LeqDigits(From2(a, 2), From2(b, 2)))
Leq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LeqDigits(a, b))
(* leading zeros, signs and blanks, and other bases than ten *)
Odd(s) == Chars(s) \subseteq Digits \cup {"+", "-", " "} \/ (Len(s) > 1 /\ SubSeq(s, 1, 1) = "0")

ParseTime(s) ==
  LET neg == s # "" /\ Ch(s, 1) = "-"
      u == IF neg THEN From2(s, 2) ELSE s
  IN IF Number(u) /\ (neg => u # "0") THEN (IF Leq(u, "9223372035") THEN Ok(s) ELSE Bad)
     ELSE IF s # "" /\ Odd(u) THEN Open ELSE Bad

ParseCount(s) ==
  IF s = "auto" THEN Ok(s)
  ELSE IF Number(s) THEN (IF s # "0" /\ Leq(s, "2147483647") THEN Ok(s) ELSE Bad)
  ELSE IF s # "" /\ Ch(s, 1) # "-" /\ Odd(s) THEN Open ELSE Bad

Word(s, W) == IF s \in W THEN Ok(s) ELSE Bad

Parse(t, s) ==
  CASE t = "flag" -> IF s = "" THEN Ok(s) ELSE Bad
    [] t = "out" -> Ok(s)
    [] t \in {"dir", "list"} -> IF s = "" THEN Bad ELSE Ok(s)
    [] t = "id" -> ParseId(s)
    [] t = "time" -> ParseTime(s)
    [] t = "count" -> ParseCount(s)
    [] t = "level" -> Word(s, {"errors", "source_file_info", "compilation_command"})
    [] t = "format" -> Word(s, {"plain_text", "ansi_term"})

(* ------------------------------------------------------- the command line  *)
RECURSIVE Eq(_, _)
Eq(s, i) == IF i > Len(s) \/ Ch(s, i) = "=" THEN i ELSE Eq(s, i + 1)   \* where the value begins
Name(arg) == SubSeq(arg, 1, Eq(arg, 1) - 1)
Value(arg) == LET k == Eq(arg, 1) IN IF k >= Len(arg) THEN "" ELSE From2(arg, k + 1)
Shortened(n) == \E m \in Names : Len(n) < Len(m) /\ SubSeq(m, 1, Len(n)) = n

One(arg) ==
  LET n == Name(arg)
  IN IF n \in Names THEN Parse(Type[n], Value(arg)) ELSE IF Shortened(n) THEN Open ELSE Bad

(* "bad", "open", or "ok" *)
Accepts(args) ==
  LET S == {One(args[i]).st : i \in {i \in DOMAIN args : args[i] # ""}}
  IN IF "open" \in S THEN "open" ELSE IF "bad" \in S THEN "bad" ELSE "ok"

Given(args) == {Name(args[i]) : i \in DOMAIN args} \cap Names
Settings(args) ==
  [n \in Given(args) |->
     LET I == {i \in DOMAIN args : Name(args[i]) = n}
     IN One(args[CHOOSE i \in I : \A j \in I : j <= i]).v]

Get(S, n, default) == IF n \in DOMAIN S THEN S[n] ELSE default
Asked(S) == Queries \cap DOMAIN S

(* ----------------------------------------------------------- the folders   *)
RECURSIVE Parts(_, _)
Parts(s, acc) ==   \* the texts between the slashes
  IF s = "" THEN <<acc>>
  ELSE IF Ch(s, 1) = "/" THEN <<acc>> \o Parts(From2(s, 2), "") ELSE Parts(From2(s, 2), acc \o Ch(s, 1))
Spelled(s) == IF s # "" /\ Ch(s, 1) = "/" THEN [abs |-> TRUE, c |-> Tail(Parts(s, ""))] ELSE [abs |-> FALSE, c |-> Parts(s, "")]

(* relative to somewhere: .. is kept where nothing is left to go up from *)
RECURSIVE Shorten(_, _)
Shorten(done, todo) ==
  IF todo = <<>> THEN done
  ELSE LET x == Head(todo) IN
       CASE x \in {".", ""} -> Shorten(done, Tail(todo))
         [] x = ".." /\ done # <<>> /\ done[Len(done)] # ".." -> Shorten(Front(done), Tail(todo))
         [] OTHER -> Shorten(Append(done, x), Tail(todo))
RECURSIVE Joined(_)
Joined(c) == IF Len(c) = 1 THEN c[1] ELSE c[1] \o "/" \o Joined(Tail(c))
Short(s) ==
  LET p == Spelled(s)
      c == Shorten(<<>>, p.c)
  IN IF p.abs THEN "/" \o (IF c = <<>> THEN "" ELSE Joined(c)) ELSE IF c = <<>> THEN "." ELSE Joined(c)

SourceDir(S) == Short(Get(S, "--source-dir", "."))
TargetDir(S) ==
  IF "--target-dir" \in DOMAIN S THEN Short(S["--target-dir"])
  ELSE LET sd == SourceDir(S)
           c == Spelled(sd).c
       IN IF sd = "." THEN "__targets" ELSE c[Len(c)] \o "_targets"
At(cwd, s) == Place(cwd, Spelled(s))

(* -------------------------------------------------------------- the time   *)
(* Seconds since 1970 as year, month, day, hour, minute, second (UTC).        *)
Civil(t) ==
  LET d == t \div 86400
      s == t % 86400
      z == d + 719468
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      day == doy - (153 * mp + 2) \div 5 + 1
      mon == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF mon <= 2 THEN 1 ELSE 0)
  IN <<y, mon, day, s \div 3600, (s % 3600) \div 60, s % 60>>
RECURSIVE ToNat(_, _)
ToNat(s, acc) == IF s = "" THEN acc ELSE ToNat(From2(s, 2), 10 * acc + Num(Ch(s, 1)))
Small(s) == Len(s) <= 9 \/ (Len(s) = 10 /\ Ch(s, 1) = "1")   \* so that it is a number of TLC
ToInt(s) == IF Ch(s, 1) = "-" THEN 0 - ToNat(From2(s, 2), 0) ELSE ToNat(s, 0)

(* ------------------------------------------------------------- the project *)
(* P: a set of [dir: place, files: set of [name, targets: set of strings,     *)
(* uses: set of targets]], one for each folder that can be the source folder; *)
(* each file uses the recipe `vrecipe` of that folder.                        *)
Of(P, place) == CHOOSE p \in P : p.dir = place
In(sd, name) == IF sd = "." THEN name ELSE sd \o "/" \o name
Edges(P, sd, td, place) ==
  LET F == Of(P, place).files
      me(n) == In(sd, n)
  IN {<<sd, me("vrecipe")>>, <<td \o "/", sd>>}
     \cup UNION {{<<me(f.name), sd>>, <<me(f.name), me("vrecipe")>>}
                 \cup {<<me(f.name), td \o "/" \o u>> : u \in f.uses}
                 \cup {<<td \o "/" \o t, me(f.name)>> : t \in f.targets} : f \in F}
Targets(P, place) == UNION {f.targets : f \in Of(P, place).files}

(* What a build has to do, the folder of the sources being one of its tasks.  *)
Prefixes(s) == {SubSeq(s, 1, k) : k \in 1..Len(s)}
RECURSIVE Listed(_, _)
Listed(s, acc) ==   \* the texts between the commas, \ taking the next character as it is
  IF s = "" THEN {acc}
  ELSE IF Ch(s, 1) = "," THEN {acc} \cup Listed(From2(s, 2), "")
  ELSE IF Ch(s, 1) = "\\" /\ Len(s) > 1 THEN Listed(From2(s, 3), acc \o Ch(s, 2))
  ELSE Listed(From2(s, 2), acc \o Ch(s, 1))
Selected(S) == {Short(t) : t \in Listed(S["--targets"], "")}
Missing(P, S, cwd) == "--targets" \in DOMAIN S /\ ~(Selected(S) \subseteq Targets(P, At(cwd, SourceDir(S))))
RECURSIVE Closure(_, _)
Closure(F, G) ==
  LET more == {f \in F : \E g \in G : f.targets \cap g.uses # {}} \ G
  IN IF more = {} THEN G ELSE Closure(F, G \cup more)
Needed(P, S, cwd) ==
  LET F == Of(P, At(cwd, SourceDir(S))).files
  IN IF "--targets" \in DOMAIN S THEN Closure(F, {f \in F : f.targets \cap Selected(S) # {}}) ELSE F

Todo(P, st, S, cwd) ==
  LET sp == At(cwd, SourceDir(S))
      tp == At(cwd, TargetDir(S))
      all == "--force-rebuild" \in DOMAIN S
  IN (IF all \/ tp \notin st.dirs THEN {SourceDir(S)} ELSE {})
     \cup {In(SourceDir(S), f.name) : f \in {f \in Needed(P, S, cwd) : all \/ <<sp, tp, f.name>> \notin st.built}}
Everything(P, S, cwd) == {SourceDir(S)} \cup {In(SourceDir(S), f.name) : f \in Needed(P, S, cwd)}

Builds(S) == Asked(S) = {} /\ "--dry-run" \notin DOMAIN S
After2(P, st, S, cwd) ==
  LET sp == At(cwd, SourceDir(S))
      tp == At(cwd, TargetDir(S))
  IN [st EXCEPT !.built = @ \cup {<<sp, tp, f.name>> : f \in Needed(P, S, cwd)}, !.dirs = @ \cup Prefixes(tp)]
=============================================================================
