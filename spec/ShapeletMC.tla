---- MODULE ShapeletMC ----
(* Design model: series grow one time stamp at a time in front of a fixed shapelet. *)
EXTENDS Shapelet
CONSTANTS Vals, MaxLen, Shapes
DefShapes == {<<<<0>>>>, <<<<8>>, <<0>>>>, <<<<4>>, <<8>>, <<8>>>>}
VARIABLES x, s, sc
Init == s \in Shapes /\ sc \in BOOLEAN /\ x \in [1..Len(s) -> {<<v>> : v \in Vals}]
Next == Len(x) < MaxLen /\ \E v \in Vals: x' = Append(x, <<v>>) /\ UNCHANGED <<s, sc>>
Spec == Init /\ [][Next]_<<x, s, sc>>
U == Eighths(x, sc)
Occurs == \E t \in Positions(U, s): \A q \in 1..Len(s): U[t + q - 1] = s[q]
ZeroIffOccurs == (Smallest(U, s) = 0) <=> Occurs
Attained == \E t \in Positions(U, s): Located(U, s, t)
ReverseBoth == Smallest(Reverse(U), Reverse(s)) = Smallest(U, s)
\* min-max scaling forgets offset and (positive) scale
Affine == sc => Eighths([t \in 1..Len(x) |-> <<2 * x[t][1] + 3>>], sc) = U
InUnit == sc => \A t \in 1..Len(U): U[t][1] \in 0..8
Monotone == [][ ~sc => Smallest(Eighths(x', FALSE), s) <= Smallest(Eighths(x, FALSE), s) ]_<<x, s, sc>>
\* without scaling, shifting series and shapelet alike changes nothing
Shifted == ~sc => Smallest(Eighths([t \in 1..Len(x) |-> <<x[t][1] + 1>>], FALSE), [q \in 1..Len(s) |-> <<s[q][1] + 8>>]) = Smallest(U, s)
====
