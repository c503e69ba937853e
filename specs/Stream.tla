------------------------------- MODULE Stream -------------------------------
(* The way of the bytes of a file to its interpretation: read in pieces of    *)
(* any size into a buffer, taken one by one, collected in an output buffer,   *)
(* flushed into a queue, read from the queue in pieces of any size. Nothing   *)
(* is lost, duplicated or reordered, whatever the sizes are.                  *)
EXTENDS Naturals, Sequences

CONSTANTS N,         \* bytes in the file (byte k has the value k)
          In, Out,   \* sizes of the buffers
          Mutant

VARIABLES file,      \* bytes not read yet
          inbuf, eof, outbuf, queue, stopped, got, done
vars == <<file, inbuf, eof, outbuf, queue, stopped, got, done>>
Min(a, b) == IF a < b THEN a ELSE b
Drop(s, k) == SubSeq(s, k + 1, Len(s))
Take(s, k) == SubSeq(s, 1, k)

Init == /\ file = [k \in 1..N |-> k] /\ inbuf = <<>> /\ eof = FALSE /\ outbuf = <<>>
        /\ queue = <<>> /\ stopped = FALSE /\ got = <<>> /\ done = FALSE

Fill == /\ inbuf = <<>> /\ ~eof
        /\ IF file = <<>> THEN eof' = TRUE /\ UNCHANGED <<file, inbuf>>
           ELSE \E k \in 1..Min(In, Len(file)) :
                  /\ inbuf' = Take(file, k) /\ file' = Drop(file, k)
                  /\ eof' = (Mutant = "short_read_ends" /\ k < In)
        /\ UNCHANGED <<outbuf, queue, stopped, got, done>>
Move == /\ inbuf # <<>> /\ Len(outbuf) < Out
        /\ outbuf' = Append(outbuf, Head(inbuf)) /\ inbuf' = Tail(inbuf)
        /\ UNCHANGED <<file, eof, queue, stopped, got, done>>
Flush == /\ Len(outbuf) = Out
         /\ queue' = queue \o (IF Mutant = "flush_loses" THEN Take(outbuf, Out - 1) ELSE outbuf)
         /\ outbuf' = <<>>
         /\ UNCHANGED <<file, inbuf, eof, stopped, got, done>>
Stop == /\ eof /\ inbuf = <<>> /\ ~stopped
        /\ queue' = IF Mutant = "no_last_flush" THEN queue ELSE queue \o outbuf
        /\ outbuf' = <<>> /\ stopped' = TRUE
        /\ UNCHANGED <<file, inbuf, eof, got, done>>
Read == /\ ~done
        /\ \/ \E k \in 1..Len(queue) : got' = got \o Take(queue, k) /\ queue' = Drop(queue, k) /\ UNCHANGED done
           \/ queue = <<>> /\ stopped /\ done' = TRUE /\ UNCHANGED <<got, queue>>
        /\ UNCHANGED <<file, inbuf, eof, outbuf, stopped>>
Next == Fill \/ Move \/ Flush \/ Stop \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InOrder == got = [k \in 1..Len(got) |-> k]
Complete == done => Len(got) = N
Ends == <>done
=============================================================================
