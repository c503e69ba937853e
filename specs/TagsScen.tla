------------------------------ MODULE TagsScen ------------------------------
(* Reading tags as a transition system: one token after the other, with a     *)
(* stack. Every text up to Max tokens that can still become well formed, and  *)
(* every way to spoil it with one more token, is printed; so is every value   *)
(* that differs from a reference in one place. The reader agrees with the     *)
(* grammar of Tags.tla on all of them.                                        *)
EXTENDS Tags, TLC, Json

CONSTANT Max

VARIABLES text, stack, want
vars == <<text, stack, want>>

Tok(t) == [t |-> t, s |-> ""]
Alphabet == {Tok("{"), Tok("}"), Tok("["), Tok("]"), Tok(":"), Tok(","), Tok("bad"), Tok("null"), [t |-> "int", s |-> "7"],
             [t |-> "str", s |-> "target"], [t |-> "str", s |-> "name"]}

(* want: what may come next. "first"/"value": a value (or the end of an empty array/object in first),
   "key", "colon", "after": a comma or the end, "done", "failed". *)
Push(f) == Append(stack, f)
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
Obj0 == [kind |-> "{", keys |-> {}]
Arr0 == [kind |-> "[", keys |-> {}]
Closing(f) == IF f.kind = "{" THEN "}" ELSE "]"
AfterValue(s) == IF s = <<>> THEN "done" ELSE "after"
Scalars == {"str", "int", "null"}

Init == text = <<>> /\ stack = <<>> /\ want = "value"

Next1(tok, s, w) ==
  /\ text' = Append(text, tok) /\ stack' = s /\ want' = w

Feed(tok) ==
  IF want \in {"value", "first"} /\ tok.t = "{" /\ ~(want = "first" /\ Top.kind = "{") THEN Next1(tok, Push(Obj0), "first")
  ELSE IF want \in {"value", "first"} /\ tok.t = "[" /\ ~(want = "first" /\ Top.kind = "{") THEN Next1(tok, Push(Arr0), "first")
  ELSE IF (want = "value" \/ (want = "first" /\ Top.kind = "[")) /\ tok.t \in Scalars THEN Next1(tok, stack, AfterValue(stack))
  ELSE IF want \in {"first", "after"} /\ tok.t = Closing(Top) THEN Next1(tok, Pop, AfterValue(Pop))
  ELSE IF (want = "key" \/ (want = "first" /\ Top.kind = "{")) /\ tok.t = "str"
       THEN Next1(tok, Append(Pop, [Top EXCEPT !.keys = @ \cup {tok.s}]), IF tok.s \in Top.keys THEN "duplicate" ELSE "colon")
  ELSE IF want = "colon" /\ tok.t = ":" THEN Next1(tok, stack, "value")
  ELSE IF want = "after" /\ tok.t = "," THEN Next1(tok, stack, IF Top.kind = "{" THEN "key" ELSE "value")
  ELSE Next1(tok, stack, "failed")

(* After a duplicate key, the text is completed so that nothing else is wrong with it. *)
RECURSIVE Close(_)
Close(s) == IF s = <<>> THEN <<>> ELSE <<Tok(Closing(s[Len(s)]))>> \o Close(SubSeq(s, 1, Len(s) - 1))
Complete ==
  /\ want = "duplicate"
  /\ text' = text \o <<Tok(":"), [t |-> "int", s |-> "7"]>> \o Close(stack)
  /\ want' = "failed" /\ stack' = <<>>

Extend == /\ want \notin {"done", "failed", "duplicate"} /\ Len(text) < Max
          /\ \E tok \in Alphabet : Feed(tok)
Next == Extend \/ Complete

Agree == (want = "done" => Value(text, 1).ok /\ Value(text, 1).n = Len(text) + 1) /\ (want # "done" => ~Value(text, 1).ok)

Show == PrintT("SCEN " \o ToJson([tokens |-> text]))

Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
S(t) == [k |-> "str", s |-> t]
P(key, v) == <<key, v>>
Dep(name) == Obj({P("ref", S(name)), P("origin", S("system")), P("rel", S("impl"))})
Reference ==
  Obj({P("target", Obj({P("name", S("t0")), P("dependencies", Arr(<<Dep("x")>>)), P("pkgconfig_libs", Arr(<<S("z")>>))})),
       P("targets", Arr(<<Obj({P("name", S("t1"))}), Obj({P("name", S("t2")), P("dependencies", Arr(<<Dep("w")>>))})>>)),
       P("dependencies", Arr(<<Dep("y")>>)), P("dependencies_extra", Arr(<<Dep("v")>>)),
       P("compiler", Obj({P("recipe", S("vrecipe")), P("config", Obj({P("a", Int("1"))})), P("use_get_tags", Int("0"))})),
       P("rebuild", S("always"))})

Other == {S("u"), Int("3"), [k |-> "real", s |-> "1.5"], [k |-> "true", s |-> ""], [k |-> "false", s |-> ""], [k |-> "null", s |-> ""],
          Arr(<<>>), Obj({}), Arr(<<S("u")>>), Obj({P("u", S("u"))})}

RECURSIVE Variants(_)
Variants(v) ==
  {w \in Other : w # v}
  \cup (IF IsObj(v) THEN {Obj(v.o \ {p}) : p \in v.o} \cup {Obj((v.o \ {p}) \cup {<<p[1] \o "_", p[2]>>}) : p \in v.o}
                         \cup UNION {{Obj((v.o \ {p}) \cup {<<p[1], w>>}) : w \in Variants(p[2])} : p \in v.o}
        ELSE IF IsArr(v) THEN UNION {{Arr([v.a EXCEPT ![i] = w]) : w \in Variants(v.a[i])} : i \in DOMAIN v.a}
                              \cup {Arr(SubSeq(v.a, 1, i - 1) \o SubSeq(v.a, i + 1, Len(v.a))) : i \in DOMAIN v.a}
        ELSE {})

RECURSIVE Joined(_)
Joined(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o (IF Len(ss) = 1 THEN <<>> ELSE <<Tok(",")>>) \o Joined(Tail(ss))
RECURSIVE ToTokens(_)
ToTokens(v) ==
  IF IsObj(v) THEN LET s == SeqOf(v.o)
                   IN <<Tok("{")>> \o Joined([i \in DOMAIN s |-> <<[t |-> "str", s |-> s[i][1]], Tok(":")>> \o ToTokens(s[i][2])])
                      \o <<Tok("}")>>
  ELSE IF IsArr(v) THEN <<Tok("[")>> \o Joined([i \in DOMAIN v.a |-> ToTokens(v.a[i])]) \o <<Tok("]")>>
  ELSE <<[t |-> v.k, s |-> v.s]>>

(* Writing a value and reading it gives the value. *)
ASSUME \A v \in {Reference} \cup Variants(Reference) : Value(ToTokens(v), 1) = Yes(v, Len(ToTokens(v)) + 1)
ASSUME WellFormed(ToTokens(Reference), FALSE) /\ Closed(Reference, FALSE, {"t0", "t1", "t2"}, {"vrecipe"})
ASSUME \A v \in {Reference} \cup Variants(Reference) : PrintT("SCEN " \o ToJson([tokens |-> ToTokens(v)]))
=============================================================================
