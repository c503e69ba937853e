-------------------------------- MODULE Kinds -------------------------------
(* What a file declares by itself, depending on the loader it is read by:     *)
(*   kind   "cxx", "rule", "app", "lib", "ext", "append", "replace", "same"   *)
(*   name   the name of the file, a sequence of characters                    *)
(*   out    the configured extension of targets (kinds append and replace)    *)
(*   gen    patterns for generated includes (kind cxx, see Tree)              *)
(*   text   what the file contains: a sequence of symbols, see Cxx            *)
(* A C++ file has include dependencies, the others have not. Tags are symbols *)
(* of the text, each of which stands for one target.                          *)
EXTENDS Cxx, Tree

(* The last extension begins at the last dot, unless the name begins with it. *)
LastDot(name) == LET D == {i \in 2..Len(name) : name[i] = "."}
                 IN IF D = {} THEN Len(name) + 1 ELSE CHOOSE i \in D : \A j \in D : j <= i
TargetFor(F) == CASE F.kind = "append" -> F.name \o F.out
                  [] F.kind = "replace" -> SubSeq(F.name, 1, LastDot(F.name) - 1) \o F.out
                  [] OTHER -> F.name

Means(F) == CASE F.kind = "cxx" -> Meaning(F.text)
              [] F.kind \in {"rule", "app", "lib"} -> MeaningRule(F.text)
              [] F.kind = "ext" -> MeaningExt(F.text)
              [] OTHER -> R0                      \* nobody reads it

(* <<origin, name>>; paths: the characters of the names that symbols stand for *)
Include(F, paths, x) ==
  <<IF x[1] = "s" THEN "system"
    ELSE IF \E i \in DOMAIN F.gen : Matches(F.gen[i], paths[x[2]]) THEN "generated" ELSE "project", x[2]>>

Declared(F, paths) ==
  [includes |-> {Include(F, paths, x) : x \in Means(F).inc},
   tags     |-> ToSet(Means(F).tags),
   names    |-> IF F.kind \in {"append", "replace", "same"} THEN {TargetFor(F)} ELSE {}]
=============================================================================
