---- MODULE Svm ----
(* Support vector machines over series: the optimality conditions of the dual problem, in fixed point. K: kernel values times KS, coefficients times AS,
   decision values times KS; slack s in units of 1/KS. *)
EXTENDS Core
\* decision value of a query with kernel row R, signed coefficients a and intercept b (both times AS)
Decision(R, a, b, KS, AS) == (Sum(Len(a), LAMBDA i: a[i] * R[i]) + b * KS) \div AS
\* classification, y in {-1, 1}, 0 <= y a <= cap: points outside the margin have no weight, points inside it all of it
SvcOptimal(y, a, cap, f, KS, AS, s) ==
  \A i \in 1..Len(y): LET w == y[i] * a[i] m == y[i] * f[i] IN
    /\ w >= -1 /\ w <= cap[i] + 1
    /\ (w <= cap[i] - 2 => m >= KS - s)
    /\ (w >= 2 => m <= KS + s)
\* regression, -cap <= a <= cap: residuals within the tube have no weight, beyond it all of it
SvrOptimal(y, a, cap, eps, f, AS, s) ==
  \A i \in 1..Len(y): LET r == y[i] - f[i] IN
    /\ Abs(a[i]) <= cap[i] + 1
    /\ (a[i] <= cap[i] - 2 => r <= eps + s)
    /\ (a[i] >= 2 => r >= eps - s)
    /\ (a[i] >= 2 - cap[i] => r >= -eps - s)
    /\ (a[i] <= -2 => r <= -eps + s)
Balanced(a) == Abs(SumSeq(a)) <= Len(a) + 1
\* one-against-one votes over C classes: P[i][j], i < j, positive for class i; smallest class on ties
Votes1(P, C, c) == Sum(C, LAMBDA d: IF c < d THEN (IF P[c][d] > 0 THEN 1 ELSE 0) ELSE IF d < c THEN (IF P[d][c] > 0 THEN 0 ELSE 1) ELSE 0)
OvoWinner(P, C) == CHOOSE c \in 1..C: /\ \A d \in 1..C: Votes1(P, C, d) <= Votes1(P, C, c)
                                      /\ \A d \in 1..(c - 1): Votes1(P, C, d) < Votes1(P, C, c)
====
