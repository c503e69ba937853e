------------------------------- MODULE Values -------------------------------
(* Configuration values and how they are combined. A value is one of          *)
(*   [o |-> set of <<key, value>>]   an object                                *)
(*   [a |-> sequence of values]      an array                                 *)
(*   [k |-> kind, s |-> text]        anything else                            *)
EXTENDS Naturals, Sequences, FiniteSets

IsObj(v) == "o" \in DOMAIN v
IsArr(v) == "a" \in DOMAIN v
Obj(S) == [o |-> S]
Arr(s) == [a |-> s]
Int(n) == [k |-> "int", s |-> n]
Str(t) == [k |-> "str", s |-> t]

Keys(v) == {p[1] : p \in v.o}
Has(v, key) == key \in Keys(v)
Get(v, key) == (CHOOSE p \in v.o : p[1] = key)[2]

RECURSIVE Merge(_, _)
Merge(x, y) ==
  IF IsObj(x) /\ IsObj(y)
  THEN Obj({p \in x.o : ~Has(y, p[1])}
           \cup {<<p[1], IF Has(x, p[1]) THEN Merge(Get(x, p[1]), p[2]) ELSE p[2]>> : p \in y.o})
  ELSE IF IsArr(x) /\ IsArr(y) THEN Arr(x.a \o y.a)
  ELSE y

RECURSIVE MergeAll(_)
MergeAll(s) == IF s = <<>> THEN Obj({})
               ELSE IF Len(s) = 1 THEN s[1]
               ELSE Merge(MergeAll(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

(* The same key has the same type in both. *)
RECURSIVE Fit(_, _)
Fit(x, y) == \/ IsObj(x) /\ IsObj(y) /\ \A key \in Keys(x) \cap Keys(y) : Fit(Get(x, key), Get(y, key))
             \/ IsArr(x) /\ IsArr(y)
             \/ ~IsObj(x) /\ ~IsObj(y) /\ ~IsArr(x) /\ ~IsArr(y) /\ x.k = y.k

(* From JSON: {"o": [[key, value], ..]}, {"a": [value, ..]}, {"k", "s"}. *)
RECURSIVE Read(_)
Read(j) == IF "o" \in DOMAIN j THEN Obj({<<j.o[i][1], Read(j.o[i][2])>> : i \in DOMAIN j.o})
           ELSE IF "a" \in DOMAIN j THEN Arr([i \in DOMAIN j.a |-> Read(j.a[i])])
           ELSE j
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o SeqOf(S \ {e})
RECURSIVE Write(_)
Write(v) == IF IsObj(v) THEN LET s == SeqOf(v.o) IN [o |-> [i \in DOMAIN s |-> <<s[i][1], Write(s[i][2])>>]]
            ELSE IF IsArr(v) THEN [a |-> [i \in DOMAIN v.a |-> Write(v.a[i])]]
            ELSE v
=============================================================================
