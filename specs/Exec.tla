-------------------------------- MODULE Exec ---------------------------------
(* How maike2 talks to a recipe: three pipes, a thread that reads each of the *)
(* two output streams until its end, and a wait for the process. The child    *)
(* does any sequence of operations: writes to one of the streams, closes one, *)
(* or reads its standard input to the end; then it exits.                     *)
EXTENDS Naturals, Sequences

CONSTANTS Cap,      \* bytes a pipe can hold
          Buf,      \* bytes a reader takes at a time
          MaxOps,   \* operations of the child
          Design    \* "good", or a design that does not work

Streams == {"out", "err"}
Ops == {<<"w", s>> : s \in Streams} \cup {<<"c", s>> : s \in Streams} \cup {<<"r", "in">>}

VARIABLES prog, pc, status,   \* the child: what it does, where it is; "running" or its status
          pipe, open,         \* bytes in the pipes; the streams the child has open
          inOpen,             \* the parent may still write to the child's standard input
          sent, got,          \* bytes written by the child to each stream; bytes read
          rd,                 \* the readers: "read" or "done"
          main, result        \* where the parent is; what it knows of the child in the end
vars == <<prog, pc, status, pipe, open, inOpen, sent, got, rd, main, result>>
Min(a, b) == IF a < b THEN a ELSE b

Init ==
  /\ prog \in UNION {[1..n -> Ops] : n \in 0..MaxOps}
  /\ pc = 1 /\ status = "running"
  /\ pipe = [s \in Streams |-> <<>>] /\ open = Streams /\ inOpen = TRUE
  /\ sent = [s \in Streams |-> 0] /\ got = [s \in Streams |-> <<>>]
  /\ rd = [s \in Streams |-> "read"] /\ main = "stdin" /\ result = "none"

Child ==
  /\ status = "running"
  /\ UNCHANGED <<prog, inOpen, got, rd, main, result>>
  /\ IF pc > Len(prog)
     THEN \E st \in {"0", "7", "signal"} : status' = st /\ open' = {} /\ UNCHANGED <<pc, pipe, sent>>
     ELSE LET op == prog[pc] IN
          /\ pc' = pc + 1 /\ UNCHANGED status
          /\ CASE op[1] = "w" /\ op[2] \in open ->
                    /\ Len(pipe[op[2]]) < Cap
                    /\ pipe' = [pipe EXCEPT ![op[2]] = Append(@, sent[op[2]] + 1)]
                    /\ sent' = [sent EXCEPT ![op[2]] = @ + 1] /\ UNCHANGED open
               [] op[1] = "c" -> open' = open \ {op[2]} /\ UNCHANGED <<pipe, sent>>
               [] op[1] = "r" -> ~inOpen /\ UNCHANGED <<pipe, sent, open>>
               [] OTHER -> UNCHANGED <<pipe, sent, open>>

MayRead(s) == CASE Design = "one_after_the_other" -> s = "out" \/ rd["out"] = "done"
                [] Design = "wait_first" -> main \in {"join", "end"}
                [] OTHER -> TRUE
Reader(s) ==
  /\ rd[s] = "read" /\ MayRead(s)
  /\ UNCHANGED <<prog, pc, status, open, inOpen, sent, main, result>>
  /\ \/ \E k \in 1..Min(Buf, Len(pipe[s])) :
          /\ got' = [got EXCEPT ![s] = @ \o SubSeq(pipe[s], 1, k)]
          /\ pipe' = [pipe EXCEPT ![s] = SubSeq(@, k + 1, Len(@))]
          /\ rd' = IF Design = "short_read_ends" /\ k < Buf THEN [rd EXCEPT ![s] = "done"] ELSE rd
     \/ /\ pipe[s] = <<>> /\ s \notin open
        /\ rd' = [rd EXCEPT ![s] = "done"] /\ UNCHANGED <<got, pipe>>

Main ==
  /\ UNCHANGED <<prog, pc, status, pipe, open, sent, got, rd>>
  /\ \/ main = "stdin" /\ main' = "wait" /\ inOpen' = (Design = "stdin_open") /\ UNCHANGED result
     \/ main = "wait" /\ status # "running" /\ result' = status
        /\ main' = (IF Design = "no_join" THEN "end" ELSE "join") /\ UNCHANGED inOpen
     \/ main = "join" /\ (\A s \in Streams : rd[s] = "done") /\ main' = "end" /\ UNCHANGED <<inOpen, result>>

Next == Child \/ Main \/ \E s \in Streams : Reader(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Child) /\ WF_vars(Main) /\ \A s \in Streams : WF_vars(Reader(s))

InOrder == \A s \in Streams : got[s] = [k \in 1..Len(got[s]) |-> k]
Complete == main = "end" => \A s \in Streams : Len(got[s]) = sent[s]
StatusRight == main = "end" => result = status
Ends == <>(main = "end")
=============================================================================
