---- MODULE BaryMC ----
(* An averaging step never increases the cost, whatever optimal alignments are chosen, for every pair of series, weights and start. *)
EXTENDS Bary
CONSTANTS Vals, MaxLen
W == {<<1, 1>>, <<1, 3>>}
VARIABLES x, y, b, w
Ser(n) == [1..n -> {<<v>> : v \in Vals}]
All == UNION {Ser(n) : n \in 1..MaxLen}
Init == x \in All /\ y \in All /\ b \in All /\ w \in W
Next == UNCHANGED <<x, y, b, w>>
Spec == Init /\ [][Next]_<<x, y, b, w>>
A == <<x, y>>
Free(p, q, m) == TRUE
Steps_ == DbaSteps(b, A, w, Free)
\* the step minimises the cost under the chosen alignments, hence the cost under optimal ones cannot grow; rational barycenters are
\* brought to integers by the common denominator
Den(s) == FoldLeft(LAMBDA a, r: (a * r[1][2]) \div Gcd(a, r[1][2]), 1, s)
ScaledCost(s) == LET u == Den(s) IN
  QDiv(DbaCost([i \in 1..Len(s) |-> <<s[i][1][1] * (u \div s[i][1][2])>>],
               [i \in 1..2 |-> [t \in 1..Len(A[i]) |-> <<u * A[i][t][1]>>]], w, Free), QInt(u * u))
Descent == \A s \in Steps_: QLe(ScaledCost(s), DbaCost(b, A, w, Free))
NonEmpty == Steps_ # {}
\* the points of a step lie within the range of the series
Hull == \A s \in Steps_: \A i \in 1..Len(s): /\ \E i2 \in 1..2: \E t \in 1..Len(A[i2]): QLe(QInt(A[i2][t][1]), s[i][1])
                                             /\ \E i2 \in 1..2: \E t \in 1..Len(A[i2]): QLe(s[i][1], QInt(A[i2][t][1]))
\* averaging copies of one series is stationary when the start is that series
Fixed == (x = y /\ b = x) => DbaCost(b, A, w, Free) = QInt(0)
====
