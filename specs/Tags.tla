-------------------------------- MODULE Tags --------------------------------
(* What tags may look like. A text is a sequence of tokens                    *)
(*   [t: "{", "}", "[", "]", ":", ",", "str", "int", "real", "true", "false", *)
(*       "null" or "bad" (anything that is not a token), s: text]             *)
(* and its meaning is a value as in Values.tla.                               *)
EXTENDS Values

No == [ok |-> FALSE, v |-> Obj({}), n |-> 0]
Yes(v, n) == [ok |-> TRUE, v |-> v, n |-> n]
At(x, i) == IF i \in DOMAIN x THEN x[i].t ELSE "end"

(* The value that begins with token i, and where it ends. *)
RECURSIVE Value(_, _)
RECURSIVE Members(_, _, _)
RECURSIVE Elements(_, _, _)
Value(x, i) ==
  CASE At(x, i) = "{" -> IF At(x, i + 1) = "}" THEN Yes(Obj({}), i + 2) ELSE Members(x, i + 1, {})
    [] At(x, i) = "[" -> IF At(x, i + 1) = "]" THEN Yes(Arr(<<>>), i + 2) ELSE Elements(x, i + 1, <<>>)
    [] At(x, i) \in {"str", "int", "real", "true", "false", "null"} -> Yes([k |-> x[i].t, s |-> x[i].s], i + 1)
    [] OTHER -> No
Members(x, i, got) ==
  IF At(x, i) # "str" \/ At(x, i + 1) # ":" THEN No
  ELSE LET val == Value(x, i + 2)
       IN IF ~val.ok \/ x[i].s \in {p[1] : p \in got} THEN No
          ELSE LET all == got \cup {<<x[i].s, val.v>>}
               IN IF At(x, val.n) = "," THEN Members(x, val.n + 1, all)
                  ELSE IF At(x, val.n) = "}" THEN Yes(Obj(all), val.n + 1)
                  ELSE No
Elements(x, i, got) ==
  LET val == Value(x, i)
  IN IF ~val.ok THEN No
     ELSE IF At(x, val.n) = "," THEN Elements(x, val.n + 1, Append(got, val.v))
     ELSE IF At(x, val.n) = "]" THEN Yes(Arr(Append(got, val.v)), val.n + 1)
     ELSE No

Kind(v) == IF IsObj(v) THEN "object" ELSE IF IsArr(v) THEN "array" ELSE v.k
May(v, key, P(_)) == Has(v, key) => P(Get(v, key))
Each(v, P(_)) == IsArr(v) /\ \A i \in DOMAIN v.a : P(v.a[i])
IsStr(v) == Kind(v) = "str"
IsInt(v) == Kind(v) = "int"

DepOk(v) == IsObj(v) /\ Has(v, "ref") /\ \A p \in v.o : IsStr(p[2])
DepsOk(v) == Each(v, DepOk)
TargetOk(v) ==
  /\ IsObj(v) /\ Has(v, "name") /\ IsStr(Get(v, "name"))
  /\ May(v, "dependencies", DepsOk)
  /\ May(v, "pkgconfig_libs", LAMBDA w : Each(w, IsStr))
CompilerOk(v) == IsObj(v) /\ Has(v, "config") /\ IsObj(Get(v, "config")) /\ May(v, "recipe", IsStr) /\ May(v, "use_get_tags", IsInt)

(* supplied: by a recipe, which has no say in how the file is compiled. *)
TagsOk(v, supplied) ==
  /\ IsObj(v)
  /\ May(v, "target", TargetOk)
  /\ May(v, "targets", LAMBDA w : Each(w, TargetOk))
  /\ May(v, "dependencies", DepsOk)
  /\ May(v, "dependencies_extra", DepsOk)
  /\ ~supplied => May(v, "compiler", CompilerOk) /\ May(v, "rebuild", IsStr)

(* Blank text counts as no tags. Whatever follows the value is ignored. *)
Read1(x) == IF x = <<>> THEN Yes(Obj({}), 1) ELSE Value(x, 1)
WellFormed(x, supplied) == Read1(x).ok /\ TagsOk(Read1(x).v, supplied)

(* The rest is about well-formed tags. *)
In(v, key) == IF Has(v, key) THEN LET w == Get(v, key) IN {w.a[i] : i \in DOMAIN w.a} ELSE {}
TargetList(v) == (IF Has(v, "target") THEN <<Get(v, "target")>> ELSE <<>>) \o (IF Has(v, "targets") THEN Get(v, "targets").a ELSE <<>>)
Names(v) == LET s == TargetList(v) IN [i \in DOMAIN s |-> Get(s[i], "name").s]
Deps(v) == In(v, "dependencies") \cup In(v, "dependencies_extra")
           \cup UNION {In(TargetList(v)[i], "dependencies") : i \in DOMAIN TargetList(v)}
Origins == {"generated", "project", "system", "pkg-config"}
UnknownWord(v, supplied) ==
  \/ \E d \in Deps(v) : Has(d, "origin") /\ Get(d, "origin").s \notin Origins
  \/ ~supplied /\ Has(v, "rebuild") /\ Get(v, "rebuild").s \notin {"always", "only_if_out_of_date"}

(* Nothing in them refers to anything that may be missing; `good`: target names that are fine. *)
Closed(v, supplied, good, recipes) ==
  /\ ~UnknownWord(v, supplied)
  /\ \A d \in In(v, "dependencies") \cup In(v, "dependencies_extra") :
       Has(d, "origin") /\ Get(d, "origin").s \in {"system", "pkg-config"}
  /\ \A i \in DOMAIN TargetList(v) : \A d \in In(TargetList(v)[i], "dependencies") :
       Has(d, "origin") => Get(d, "origin").s \in {"system", "pkg-config"}
  /\ \A i \in DOMAIN Names(v) : Names(v)[i] \in good /\ \A j \in 1..i - 1 : Names(v)[i] # Names(v)[j]
  /\ ~supplied /\ Has(v, "compiler") =>
       LET c == Get(v, "compiler")
           r == IF Has(c, "recipe") THEN Get(c, "recipe").s ELSE ""
       IN r \in recipes \/ (r = "" /\ ~Has(c, "use_get_tags"))
=============================================================================
