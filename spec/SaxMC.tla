---- MODULE SaxMC ----
(* The aggregated distances lower-bound the Euclidean distance when the segments cover the series. Values in quarters. *)
EXTENDS Sax
CONSTANTS Vals, N, W, Alpha
VARIABLES x, y
Ser == [1..(N * W) -> Vals]
Init == x \in Ser /\ y \in Ser
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
P(s) == [j \in 1..N |-> <<Paa(s, N)[j]>>]
S(s) == [j \in 1..N |-> <<SymbolOf(QDiv(Paa(s, N)[j], QInt(4)), Alpha)>>]
E2 == Sum(Len(x), LAMBDA t: Sq(x[t] - y[t]))
PaaBound == QLe(PaaDist2(P(x), P(y), N * W), QInt(E2))
SaxBound == SfLeq(SaxDist2(S(x), S(y), Alpha, N * W), SfDiv(SfInt(E2), SfInt(16)), 18)
Monotone == \A j \in 1..N: QLe(Paa(x, N)[j], Paa(y, N)[j]) => S(x)[j][1] <= S(y)[j][1]
SlopeShift == Slope(x) = Slope([t \in 1..Len(x) |-> x[t] + 3])
SlopeLine == LET a == x[1] b == y[1] IN Slope([t \in 1..Len(x) |-> a + b * t]) = QInt(b)
====
