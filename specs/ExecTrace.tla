----------------------------- MODULE ExecTrace ------------------------------
(* Judges what became of the output and status of recipes. items.json is an   *)
(* array of builds {"tasks": [task], "entries": [entry], "err": [run],        *)
(* "intact": BOOLEAN, "exit0": BOOLEAN, "hang": BOOLEAN}                      *)
(* task: {"prog": [op], "args": [text] (what maike2 prepared), "recv": [text] *)
(*        (what the recipe got), "started", "status": "0", another number, or *)
(*        a signal}                                                           *)
(* op: {"k": "out"/"err", "id": number, "n": lines} | {"k": "closeout"} |     *)
(*     {"k": "closeerr"} | {"k": "stdin"} | {"k": "raw", "b": [byte]}         *)
(*     (raw is standard output of any bytes; nothing follows it)              *)
(* run: {"t": task, "id", "a", "b"}: lines a..b of operation id               *)
(* entry: {"t": task, "ok", "out": [run], "raw": [byte] (as printed, with the *)
(*         marks of the log)}. "err" is maike2's whole standard error.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANT Props
Items == JsonDeserialize("items.json")

VARIABLES ti, ph
Init == ti \in DOMAIN Items /\ ph = 0
V(ok, text) == IF ok THEN {} ELSE {"C12: " \o text}
Range(s) == {s[i] : i \in DOMAIN s}

(* ---- what a program writes to a stream *)
RECURSIVE Written(_, _, _, _)
Written(prog, i, s, open) ==
  IF i > Len(prog) THEN <<>>
  ELSE LET op == prog[i]
           rest(o) == Written(prog, i + 1, s, o)
       IN CASE op.k = "close" \o s -> rest(FALSE)
            [] op.k = s /\ open /\ op.n > 0 -> <<[id |-> op.id, a |-> 0, b |-> op.n - 1]>> \o rest(open)
            \* the recipe reports how much there was to read
            [] op.k = "stdin" /\ s = "out" /\ open -> <<[id |-> 0, a |-> 0, b |-> 0]>> \o rest(open)
            [] OTHER -> rest(open)
Out(T) == Written(T.prog, 1, "out", TRUE)
Err(T) == Written(T.prog, 1, "err", TRUE)
RECURSIVE OutOpen(_, _)
OutOpen(prog, i) == i > Len(prog) \/ (prog[i].k # "closeout" /\ OutOpen(prog, i + 1))
Raw(T) == IF T.prog # <<>> /\ T.prog[Len(T.prog)].k = "raw" /\ OutOpen(T.prog, 1) THEN T.prog[Len(T.prog)].b ELSE <<>>

(* ---- how the log shows bytes: every line gets a mark, the last one an end *)
Mark == <<32, 46, 46, 46, 32>>
RECURSIVE Shown(_, _, _)
Shown(b, i, fresh) ==
  IF i > Len(b) THEN IF b # <<>> /\ b[Len(b)] # 10 THEN <<10>> ELSE <<>>
  ELSE (IF fresh THEN Mark ELSE <<>>) \o <<b[i]>> \o Shown(b, i + 1, b[i] = 10)

Strip(r) == [id |-> r.id, a |-> r.a, b |-> r.b]
Lines(seq) == [i \in DOMAIN seq |-> Strip(seq[i])]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Verdict(I) ==
  LET T(i) == I.tasks[i]
      started == {i \in DOMAIN I.tasks : T(i).started}
      of(i) == {k \in DOMAIN I.entries : I.entries[k].t = i}
      failed == \E i \in started : T(i).status # "0"
  IN IF I.hang THEN {}    \* not a matter of this property
     ELSE V(I.intact, "the output of recipes is mixed up")
     \cup UNION {
       V(Cardinality(of(i)) = 1, "a recipe that was run has no entry")
       \cup V(T(i).recv = T(i).args, "a recipe did not get its arguments as they are")
       \cup UNION {LET e == I.entries[k] IN
            V(e.ok = (T(i).status = "0"), "a recipe that ended with " \o T(i).status \o " is taken for something else")
            \cup V(Lines(e.out) = Out(T(i)), "standard output is not complete, or not in order")
            \cup V(e.raw = Shown(Raw(T(i)), 1, TRUE), "the bytes of standard output are not shown as they are") : k \in of(i)}
       : i \in started}
     \cup V(Lines(I.err) = Flat([k \in DOMAIN I.entries |-> Err(T(I.entries[k].t))]),
            "standard error is not complete, not in order, or mixed")
     \cup V(I.exit0 = ~failed, "the exit status of maike2 does not follow from that of the recipes")

Judge ==
  /\ ph = 0 /\ ph' = 1 /\ UNCHANGED ti
  /\ LET v == Verdict(Items[ti]) IN
       IF v = {} THEN PrintT("ACCEPT " \o ToString(ti))
       ELSE PrintT("REJECT " \o ToJson([i |-> ti, why |-> v]))

Spec == Init /\ [][Judge]_<<ti, ph>>
=============================================================================
