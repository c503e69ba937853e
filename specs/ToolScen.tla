------------------------------ MODULE ToolScen ------------------------------
(* Every choice of limits on the language revision, and of what two compilers *)
(* know, over a few revisions. The strategy of the recipe (ask each compiler  *)
(* in turn what it is without an option, and if that will not do for the      *)
(* revision at the limit that is violated) finds a compiler whenever there is *)
(* one. Emitted as limits and compilers in the sense of Tools.                *)
EXTENDS Tools, Json

Revs == <<[s |-> "c++11", v |-> 201103], [s |-> "c++14", v |-> 201402], [s |-> "c++17", v |-> 201703], [s |-> "c++20", v |-> 202002]>>
Limits == {0} \cup {Revs[i].v : i \in 2..4}

(* a compiler knows everything up to its newest revision *)
Compiler(n, default, newest) ==
  [n |-> n, acc |-> <<[s |-> "-", v |-> Revs[default].v]>> \o SubSeq(Revs, 1, newest)]
Known(n) == {Compiler(n, p[1], p[2]) : p \in {p \in (1..4) \X (1..4) : p[1] <= p[2]}}

VARIABLES rev, cs, done
Init == /\ rev \in [there : {TRUE}, min : Limits, max : Limits, def : BOOLEAN]
        /\ rev.min # 0 \/ rev.max # 0
        /\ cs \in {<<a>> : a \in Known("g++")} \cup {<<a, b>> : a \in Known("g++"), b \in Known("g++-9")}
        /\ done = FALSE
Emit == /\ ~done /\ done' = TRUE /\ UNCHANGED <<rev, cs>>
        /\ PrintT("SCEN " \o ToJson([rev |-> rev, compilers |-> cs]))
Spec == Init /\ [][Emit]_<<rev, cs, done>>

P == [compilers |-> cs, cxx |-> "g++", alt |-> <<"g++", "g++-9">>]
Accepts(c, s) == \E a \in Range(c.acc) : a.s = s
Says(c, s) == (CHOOSE a \in Range(c.acc) : a.s = s).v
Option(v) == (CHOOSE x \in Range(Revs) : x.v = v).s
Ask(c) == LET d == Says(c, "-") IN
          IF rev.min # 0 /\ rev.min = rev.max THEN Option(rev.min)
          ELSE IF rev.min # 0 /\ d < rev.min THEN Option(rev.min)
          ELSE IF rev.max # 0 /\ d > rev.max THEN Option(rev.max) ELSE "-"
Found == ~(rev.min # 0 /\ rev.max # 0 /\ rev.min > rev.max)
         /\ \E c \in Usable(P, rev) : Accepts(c, Ask(c)) /\ Fits(rev, Says(c, Ask(c)))
Strategy == Found <=> ~Impossible(P, rev)
Sound == \A c \in Usable(P, rev) : Found /\ Accepts(c, Ask(c)) => RightCompiler(P, rev, c.n, Ask(c))
=============================================================================
