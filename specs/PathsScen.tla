------------------------------ MODULE PathsScen ------------------------------
(* Ways to name a source and a target folder, from different places, below    *)
(* the folder "/w". Each is emitted as a scenario.                            *)
EXTENDS Paths, TLC, Json

CONSTANT Deep
P == <<"w", "p">>
Places == {P, <<"w">>, <<"w", "p", "d">>, <<"w", "q">>, <<"w", "p", "d", "e">>}
Targets == {<<"w", "p", "__t">>, <<"w", "t">>, <<"w", "q", "t">>, <<"w", "p", "__o", "t">>, <<"w", "pt">>}

VARIABLES cwd, td, s, t, done
Init == /\ cwd \in Places /\ td \in Targets /\ done = FALSE
        /\ s \in Spellings(cwd, P)
        /\ t \in (IF Deep THEN Spellings(cwd, td) ELSE {From(cwd, td), Abs(td), Slashed(From(cwd, td)), Dotted(From(cwd, td))})
Emit == /\ ~done /\ done' = TRUE /\ UNCHANGED <<cwd, td, s, t>>
        /\ PrintT("SCEN " \o ToJson([cwd |-> cwd, s |-> s, t |-> t, td |-> td]))
Spec == Init /\ [][Emit]_<<cwd, td, s, t, done>>

Laws == /\ Place(cwd, s) = P /\ Place(cwd, t) = td
        /\ Place(cwd, From(cwd, td)) = td /\ Place(cwd, Slashed(s)) = P
        /\ Place(<<>>, Abs(Place(cwd, s))) = Place(cwd, s)
        /\ Seen(td \o <<"x">>, P, td) = <<"target", "x">> /\ Seen(P \o <<"x">>, P, td) = <<"source", "x">>
=============================================================================
