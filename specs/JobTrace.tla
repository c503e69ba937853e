------------------------------ MODULE JobTrace ------------------------------
(* Judges histories of invocations on one project. items.json is an array of  *)
(*  {"cwd": place, "host", "nproc", "dirs": [place] (there at the beginning), *)
(*   "projects": [{"dir", "files": [{"name", "targets", "uses"}]}],           *)
(*   "refs": [{"kind", "dir": place of the source folder, "lines"}],          *)
(*   "hist": [{"args", "tty", "before", "after", "obs"}]}                     *)
(* with obs: {"exit0", "changed": [place], "header": [] or [{"workers", "id", *)
(* "sd", "td", "time": [6 numbers]}], "rest": [lines of standard output after *)
(* the header], "file": [lines of the file the answer is to go to],           *)
(* "entries": [{"id", "src", "ran", "cmd"}] (the log's), "ran": [{"src", "id",*)
(* "start", "sd", "td", "host", "fmt", "task"}]}                              *)
EXTENDS Job, Json

CONSTANT Props
Items == JsonDeserialize("items.json")

VARIABLES ti, ph
Init == ti \in DOMAIN Items /\ ph = 0

R(s) == {s[i] : i \in DOMAIN s}
V(prop, ok, text) == IF prop \in Props /\ ~ok THEN {prop \o ": " \o text} ELSE {}

Projects(I) == {[dir |-> p.dir, files |-> {[name |-> f.name, targets |-> R(f.targets), uses |-> R(f.uses)] : f \in R(p.files)}] : p \in R(I.projects)}
Pair(l) ==   \* "a" -> "b"
  LET q == {i \in 1..Len(l) : Ch(l, i) = "\""}
  IN IF \E i \in q : i = 1 /\ Len(l) > 7 /\ \E k \in 2..Len(l) - 6 : SubSeq(l, k, k + 5) = "\" -> \""
     THEN LET k == CHOOSE k \in 2..Len(l) - 6 : SubSeq(l, k, k + 5) = "\" -> \""
          IN {<<SubSeq(l, 2, k - 1), SubSeq(l, k + 6, Len(l) - 1)>>}
     ELSE {}
Pairs(lines) == UNION {Pair(l) : l \in R(lines)}
OptionIn(l) ==
  LET K == {k \in 1..Len(l) : Ch(l, k) \in {"=", "["}}
  IN IF Len(l) < 3 \/ SubSeq(l, 1, 2) # "--" THEN {}
     ELSE {IF K = {} THEN l ELSE SubSeq(l, 1, (CHOOSE k \in K : \A m \in K : k <= m) - 1)}

Answers(I, S, kind, lines) ==
  LET sd == SourceDir(S)
      td == TargetDir(S)
      P == Projects(I)
      here == At(I.cwd, sd)
      ref == CHOOSE r \in R(I.refs) : r.kind = kind /\ r.dir = here
  IN CASE kind = "--print-dep-graph" -> Pairs(lines) = Edges(P, sd, td, here)
       [] kind = "--print-dep-graph-inv" -> Pairs(lines) = {<<e[2], e[1]>> : e \in Edges(P, sd, td, here)}
       [] kind = "--list-targets" -> R(lines) = Targets(P, here) \cup {""} \/ R(lines) = Targets(P, here) \cup {"."}
       [] OTHER -> lines = ref.lines

Header(I, h, st, S, inv) ==
  LET id == Get(S, "--build-id", "")
      start == Get(S, "--start-time", "")
      n == Get(S, "--num-workers", "auto")
  IN V("C25", h.sd = SourceDir(S), "the log names another source folder: " \o h.sd)
     \cup V("C25", h.td = TargetDir(S), "the log names another target folder: " \o h.td)
     \cup V("C25", IF id # "" THEN h.id = id ELSE h.id \notin st.ids, "the log shows another build id: " \o h.id)
     \cup V("C25", IF start # "" THEN ~Small(start) \/ h.time = Civil(ToInt(start))
                   ELSE \E t \in inv.before..inv.after : h.time = Civil(t), "the log shows another start time: " \o ToString(h.time))
     \cup V("C25", ToString(h.workers) = (IF n = "auto" THEN ToString(I.nproc) ELSE n), "another number of workers: " \o ToString(h.workers))

Told(I, r, st, S, inv) ==
  LET id == Get(S, "--build-id", "")
      start == Get(S, "--start-time", "")
      fmt == Get(S, "--log-output-format", IF inv.tty THEN "ansi_term" ELSE "plain_text")
      h == inv.obs.header
  IN V("C25", r.sd = SourceDir(S), r.src \o " is told another source folder: " \o r.sd)
     \cup V("C25", r.td = TargetDir(S), r.src \o " is told another target folder: " \o r.td)
     \cup V("C25", IF id # "" THEN r.id = id ELSE Len(r.id) = 64 /\ r.id \notin st.ids /\ (h # <<>> => r.id = h[1].id),
            r.src \o " is told another build id: " \o r.id)
     \cup V("C25", IF start # "" THEN r.start = start
                   ELSE Small(r.start) /\ ToInt(r.start) >= inv.before /\ ToInt(r.start) <= inv.after
                        /\ (h # <<>> => h[1].time = Civil(ToInt(r.start))), r.src \o " is told another start time: " \o r.start)
     \cup V("C25", r.host = I.host, r.src \o " is told another host: " \o r.host)
     \cup V("C25", r.fmt = fmt, r.src \o " is told another log format: " \o r.fmt)

Verdict(I, st, inv) ==
  LET o == inv.obs
      acc == Accepts(inv.args)
      S == Settings(inv.args)
      asked == Asked(S)
      level == Get(S, "--log-level", "source_file_info")
      P == Projects(I)
      srcs == {r.src : r \in R(o.ran)}
      todo == IF asked = {} /\ acc = "ok" /\ ~Missing(P, S, I.cwd) THEN Todo(P, st, S, I.cwd) ELSE {}
      head == IF o.header = <<>> THEN {} ELSE Header(I, o.header[1], st, S, inv)
      \* the question that is answered
      file(k) == S[k] # ""
  IN IF acc = "open" THEN {}
     ELSE IF acc = "bad"
     THEN V("C25", ~o.exit0, "a malformed command line is accepted")
          \cup V("C25", o.ran = <<>> /\ o.changed = <<>>, "something is done in spite of a malformed command line")
     ELSE IF asked # {}
     THEN V("C26", o.exit0, "a question is not answered")
          \cup V("C26", o.ran = <<>>, "recipes are run instead of answering")
          \cup V("C26", ~o.exit0 \/ \E k \in asked :
                   IF file(k) THEN o.rest = <<>> /\ Answers(I, S, k, o.file) /\ R(o.changed) = {At(I.cwd, S[k])}
                   ELSE o.changed = <<>> /\ Answers(I, S, k, o.rest),
                 "not the answer to " \o ToString(asked))
          \cup head
     ELSE IF Missing(P, S, I.cwd)
     THEN V("C25", ~o.exit0, "a target there is not is accepted") \cup V("C25", o.ran = <<>>, "recipes are run for a target there is not")
     ELSE V("C25", o.exit0, "a correct command line is rejected, or its build fails")
          \cup V("C25", ~o.exit0 \/ o.header # <<>>, "the log has no header")
          \cup head
          \cup (IF ~o.exit0 THEN {}
                ELSE IF "--dry-run" \in DOMAIN S
                THEN V("C25", o.ran = <<>> /\ o.changed = <<>>, "a dry run runs recipes or changes files")
                ELSE V("C25", srcs = todo /\ Len(o.ran) = Cardinality(srcs),
                       "not the recipes that have to be run: " \o ToString(srcs) \o " instead of " \o ToString(todo))
                     \cup UNION {Told(I, r, st, S, inv) : r \in R(o.ran)}
                     \cup V("C25", \A r \in R(o.ran) : level # "errors" => \E e \in R(o.entries) : e.id = r.task /\ e.src = r.src,
                            "a recipe is told another number than the one in the log"))
          \cup V("C25", ~o.exit0 \/ level # "errors" \/ o.rest = <<>>, "more than errors is printed")
          \cup V("C25", ~o.exit0 \/ level = "errors" \/ {e.src : e \in R(o.entries)} = Everything(P, S, I.cwd), "not all source files are in the log")
          \cup V("C25", ~o.exit0 \/ \A e \in R(o.entries) : e.cmd = (level = "compilation_command"), "commands are shown at the wrong level")

RECURSIVE Judged(_, _, _)
Judged(I, st, k) ==
  IF k > Len(I.hist) THEN {}
  ELSE LET inv == I.hist[k]
           acc == Accepts(inv.args)
           v == TLCEval(Verdict(I, st, inv))
           S == Settings(inv.args)
           ids == {h.id : h \in R(inv.obs.header)} \cup {r.id : r \in R(inv.obs.ran)}
           st2 == TLCEval([(IF acc = "ok" /\ Builds(S) /\ inv.obs.exit0 THEN After2(Projects(I), st, S, I.cwd) ELSE st) EXCEPT !.ids = @ \cup ids])
       IN IF v # {} THEN {ToString(k) \o " " \o x : x \in v} ELSE IF acc = "open" THEN {} ELSE Judged(I, st2, k + 1)

Strip(x) == SubSeq(x, 3, Len(x))
Judge ==
  /\ ph = 0 /\ ph' = 1 /\ UNCHANGED ti
  /\ LET I == Items[ti]
         v == Judged(I, [built |-> {}, dirs |-> R(I.dirs), ids |-> {}], 1)
         help == UNION {OptionIn(l) : l \in UNION {R(r.lines) : r \in {r \in R(I.refs) : r.kind = "--help"}}}
         w == {Strip(x) : x \in v} \cup V("C26", help = Names, "the help does not show the options there are")
     IN IF w = {} THEN PrintT("ACCEPT " \o ToString(ti))
        ELSE PrintT("REJECT " \o ToJson([i |-> ti, why |-> w]))

Spec == Init /\ [][Judge]_<<ti, ph>>
=============================================================================
