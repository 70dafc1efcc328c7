---- MODULE KShape ----
(* Shape-based clustering: cross-correlations over all shifts, alignment by the best shift, extraction of a centroid shape. *)
EXTENDS Cluster

Shifts(n) == (1 - n)..(n - 1)
\* x against y delayed by s, summed over the dimensions
CC(x, y, s) == Sum(Len(x), LAMBDA t: IF t + s \in 1..Len(x) THEN Sum(Len(x[1]), LAMBDA k: x[t + s][k] * y[t][k]) ELSE 0)
MaxCC(x, y) == LET v == {CC(x, y, s) : s \in Shifts(Len(x))} IN CHOOSE a \in v: \A b \in v: b <= a
BestShifts(x, y) == {s \in Shifts(Len(x)): \A r \in Shifts(Len(x)): CC(x, y, r) <= CC(x, y, s)}
Norm2(x) == Sum(Len(x), LAMBDA t: Sum(Len(x[1]), LAMBDA k: Sq(x[t][k])))
Delay(y, s) == [t \in 1..Len(y) |-> IF t - s \in 1..Len(y) THEN y[t - s] ELSE [k \in 1..Len(y[1]) |-> 0]]
\* the squared (signed) normalised correlation numerator; 0 when a series vanishes
Ncc2(x, y) == IF Norm2(x) = 0 \/ Norm2(y) = 0 THEN 0 ELSE LET m == MaxCC(x, y) IN m * Abs(m)

(* ---- shape extraction, one dimension: the centroid is a dominant eigenvector of Q S Q, S the scatter of the aligned members
   and Q the centring projection. Members are integer sequences; n * Q is integer. ---- *)
CentreOf(v) == LET s == SumSeq(v) IN [t \in 1..Len(v) |-> Len(v) * v[t] - s]
Dot(u, v) == Sum(Len(u), LAMBDA t: u[t] * v[t])
\* n^2 (Q S Q) v  for members Y
Apply(Y, v) == LET c == CentreOf(v)
                   w == [t \in 1..Len(v) |-> Sum(Len(Y), LAMBDA i: Y[i][t] * Dot(Y[i], c))]
               IN CentreOf(w)
Quad(Y, v) == LET c == CentreOf(v) IN Sum(Len(Y), LAMBDA i: Sq(Dot(Y[i], c)))
Probes(n) == {v \in [1..n -> -2..2] : \E t \in 1..n: v[t] # 0}
\* c (fixed point, squared length n * S^2): no probe has a Rayleigh quotient above that of c
Dominant(Y, c, S, pct) ==
  LET n == Len(c) cq == [t \in 1..n |-> c[t] \div (S \div 100)]         \* two digits suffice for the quotient
      qc == Quad(Y, cq) nc == Dot(cq, cq)
  IN \A v \in Probes(n): (Quad(Y, v) * 100) \div Dot(v, v) <= ((qc \div (nc \div 100)) * (100 + pct)) \div 100 + 2
====
