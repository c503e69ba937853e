------------------------------- MODULE Paths --------------------------------
(* What a path means: a spelling is [abs |-> begins with a slash, c |-> the   *)
(* texts between slashes]; a place is the sequence of names from the root.    *)
EXTENDS Naturals, Sequences, FiniteSets

Front(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE NormFrom(_, _)
NormFrom(done, todo) ==
  IF todo = <<>> THEN done
  ELSE LET x == Head(todo) IN
       CASE x = "." \/ x = "" -> NormFrom(done, Tail(todo))
         [] x = ".." -> NormFrom(IF done = <<>> THEN done ELSE Front(done), Tail(todo))
         [] OTHER -> NormFrom(Append(done, x), Tail(todo))

Place(cwd, s) == NormFrom(IF s.abs THEN <<>> ELSE cwd, s.c)

Below(x, top) == Len(x) >= Len(top) /\ SubSeq(x, 1, Len(top)) = top
After(x, top) == SubSeq(x, Len(top) + 1, Len(x))
RECURSIVE Common(_, _)
Common(x, y) == IF x = <<>> \/ y = <<>> THEN 0 ELSE IF Head(x) # Head(y) THEN 0 ELSE 1 + Common(Tail(x), Tail(y))
Ups(n) == [i \in 1..n |-> ".."]
(* the relative spelling of a place *)
From(cwd, x) == LET n == Common(cwd, x) IN [abs |-> FALSE, c |-> Ups(Len(cwd) - n) \o SubSeq(x, n + 1, Len(x))]
Abs(x) == [abs |-> TRUE, c |-> x]
(* other spellings of the same *)
Dotted(s) == IF s.abs THEN s ELSE [s EXCEPT !.c = <<".">> \o @]
Slashed(s) == IF s.c = <<>> THEN s ELSE [s EXCEPT !.c = Append(@, "")]
Put(s, k, x) == [s EXCEPT !.c = SubSeq(@, 1, k) \o x \o SubSeq(@, k + 1, Len(@))]
Spellings(cwd, x) ==
  LET base == {From(cwd, x), Abs(x)}
      b == {IF s.c = <<>> /\ ~s.abs THEN [s EXCEPT !.c = <<".">>] ELSE s : s \in base}
      dot == b \cup {Dotted(s) : s \in b}
      mid == dot \cup UNION {{Put(s, k, y) : k \in 1..Len(s.c), y \in {<<".">>, <<"zz", "..">>}} : s \in b}
      dbl == mid \cup UNION {{Put(s, k, <<"">>) : k \in 1..(Len(s.c) - 1)} : s \in b}
  IN dbl \cup {Slashed(s) : s \in dbl}

(* A place as seen from source and target folder. *)
Seen(x, sd, td) == IF Below(x, td) THEN <<"target">> \o After(x, td)
                   ELSE IF Below(x, sd) THEN <<"source">> \o After(x, sd)
                   ELSE <<"elsewhere">> \o x
=============================================================================
