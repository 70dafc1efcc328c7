---- MODULE Perf ----
(* Forecasting errors (tslearn.metrics.performance).  Datasets are sequences of series, series sequences of points.
   u: weights of the series, w: weights of the time stamps, v: weights of the features (all-ones sequences when uniform). *)
EXTENDS Rat
Ones(n) == [i \in 1..n |-> 1]
AbsE(a, b) == Abs(a - b)
SqE(a, b) == Sq(a - b)
\* error of feature j: average over time stamps of the averages over series
Feature(Y, P, j, u, w, D(_, _)) ==
  Q(Sum(Len(Y), LAMBDA i: u[i] * Sum(Len(Y[i]), LAMBDA t: w[t] * D(Y[i][t][j], P[i][t][j]))), SumSeq(u) * SumSeq(w))
Features(Y, P, u, w, D(_, _)) == [j \in 1..Len(Y[1][1]) |-> Feature(Y, P, j, u, w, D)]
Average(q, v) == QDiv(QSumSeq([j \in 1..Len(q) |-> QMul(QInt(v[j]), q[j])]), QInt(SumSeq(v)))
\* the naive forecast of period m on a dataset: the value m steps ago
NaiveTrue(X, m) == [i \in 1..Len(X) |-> SubSeq(X[i], m + 1, Len(X[i]))]
NaivePred(X, m) == [i \in 1..Len(X) |-> SubSeq(X[i], 1, Len(X[i]) - m)]
Scale(X, m) == Features(NaiveTrue(X, m), NaivePred(X, m), Ones(Len(X)), Ones(Len(X[1]) - m), AbsE)
QInf == <<INF, 1>>
\* IEEE quotient of two non-negative numbers
Ratio(a, b) == IF b[1] # 0 THEN QDiv(a, b) ELSE IF a[1] = 0 THEN QNan ELSE QInf
====
