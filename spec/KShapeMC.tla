---- MODULE KShapeMC ----
(* Properties of the alignment by cross-correlation on all small series: symmetric similarity, bounded by the norms (Cauchy-Schwarz),
   equal to the product of the norms for a series with itself, and aligning maximises the plain inner product. *)
EXTENDS KShape
CONSTANTS Vals, N
VARIABLES x, y
Init == x \in [1..N -> {<<v - 2>> : v \in Vals}] /\ y \in [1..N -> {<<v - 2>> : v \in Vals}]
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
Symmetric == MaxCC(x, y) = MaxCC(y, x)
Bounded == LET m == MaxCC(x, y) IN m * m <= Norm2(x) * Norm2(y) \/ m < 0
Self == MaxCC(x, x) = Norm2(x)
Aligned == \A s \in BestShifts(x, y): CC(x, Delay(y, s), 0) = MaxCC(x, y)
Rayleigh == \A s \in BestShifts(x, y): LET Y == <<[t \in 1..N |-> x[t][1]], [t \in 1..N |-> Delay(y, s)[t][1]]>> v == [t \in 1..N |-> x[t][1]] IN
  Dot(v, Apply(Y, v)) = Quad(Y, v)
====
