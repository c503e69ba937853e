-------------------------------- MODULE Merge --------------------------------
(* Laws of Values!Merge on a small universe, and the pairs of that universe   *)
(* that fit together, to be given to maike2 (lines "SCEN ..").                *)
EXTENDS Values, TLC, Json

CONSTANTS Mode     \* "laws" or "pairs"

Inner == {Obj({}), Obj({<<"k", Int("1")>>}), Obj({<<"k", Int("2")>>}), Obj({<<"l", Int("1")>>}), Obj({<<"k", Arr(<<Int("1")>>)>>})}
Vals == {Int("1"), Int("2"), Arr(<<>>), Arr(<<Int("1")>>), Arr(<<Int("2"), Int("1")>>)} \cup Inner
With(key) == {{}} \cup {{<<key, v>>} : v \in Vals}
One == {Obj(s) : s \in With("k")}
Two == {Obj(s \cup t) : s \in With("k"), t \in With("l")}

VARIABLES x, y, z, ph
Init == /\ ph = 0
        /\ IF Mode = "laws" THEN x \in One /\ y \in One /\ z \in One
           ELSE x \in Two /\ y \in Two /\ Fit(x, y) /\ z = Obj({})
Next == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED <<x, y, z>>
        /\ Mode = "laws" \/ PrintT("SCEN " \o ToJson([files |-> <<Write(x), Write(y)>>]))
Spec == Init /\ [][Next]_<<x, y, z, ph>>

AllFit == Fit(x, y) /\ Fit(y, z) /\ Fit(x, z)
Laws ==
  /\ Merge(x, Obj({})) = x /\ Merge(Obj({}), x) = x
  /\ Keys(Merge(x, y)) = Keys(x) \cup Keys(y)
  /\ AllFit => Merge(Merge(x, y), z) = Merge(x, Merge(y, z))
  /\ MergeAll(<<x, y, z>>) = Merge(Merge(x, y), z)
  /\ \A key \in Keys(x) : ~Has(y, key) => Get(Merge(x, y), key) = Get(x, key)
  /\ \A key \in Keys(y) : ~Has(x, key) \/ ~(IsObj(Get(y, key)) \/ IsArr(Get(y, key))) => Get(Merge(x, y), key) = Get(y, key)
=============================================================================
