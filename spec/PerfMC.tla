---- MODULE PerfMC ----
(* All small pairs of univariate or bivariate datasets, growing series by series: laws of the errors. *)
EXTENDS Perf
CONSTANTS V, N, T, D, WMAX
VARIABLES y, p, u, w, x
Series == [1..T -> [1..D -> 0..V]]
\* the two datasets differ by e; forecasts are kept at a fixed reference so that only the errors vary
Init == y = <<>> /\ p = <<>> /\ u = <<>> /\ w \in {s \in [1..T -> 0..WMAX] : \E t \in 1..T: s[t] > 0} /\ x \in [1..3 -> 0..V]
Next == Len(y) < N /\ \E s \in Series, k \in 0..WMAX: y' = Append(y, s) /\ p' = Append(p, [t \in 1..T |-> [j \in 1..D |-> (t + j) % 2]]) /\ u' = Append(u, k) /\ UNCHANGED <<w, x>>
Spec == Init /\ [][Next]_<<y, p, u, w, x>>
Live == SumSeq(u) > 0
Mae == Features(y, p, u, w, AbsE)
Mse == Features(y, p, u, w, SqE)
\* a series of weight zero does not count; weight k is the same as k copies
Copies(s, k) == [i \in 1..k |-> s]
Expand(z) == FoldLeft(LAMBDA a, i: a \o Copies(z[i], u[i]), <<>>, Idx(Len(z)))
Weights == Live => Features(Expand(y), Expand(p), Ones(SumSeq(u)), w, AbsE) = Mae /\ Features(Expand(y), Expand(p), Ones(SumSeq(u)), w, SqE) = Mse
Symmetric == Live => Features(p, y, u, w, AbsE) = Mae /\ Features(p, y, u, w, SqE) = Mse
Jensen == Live => \A j \in 1..D: QLe(QMul(Mae[j], Mae[j]), Mse[j])
Zero == Live => \A j \in 1..D: (Mae[j][1] = 0) <=> (\A i \in 1..Len(y), t \in 1..T: u[i] * w[t] = 0 \/ y[i][t][j] = p[i][t][j])
Rev(z) == [i \in 1..Len(z) |-> z[Len(z) - i + 1]]
Order == Live => Features(Rev(y), Rev(p), Rev(u), w, AbsE) = Mae
Mean == Live => QLe(QMin(Mae[1], Mae[D]), Average(Mae, Ones(D))) /\ QLe(Average(Mae, Ones(D)), QMax(Mae[1], Mae[D])) /\ Average(Mae, [j \in 1..D |-> IF j = 1 THEN 2 ELSE 0]) = Mae[1]
\* the naive forecast of the training data itself has scaled error one
X == << [t \in 1..3 |-> <<x[t]>>] >>
Naive == \A m \in 1..2: LET s == Scale(X, m)[1] IN Ratio(Feature(NaiveTrue(X, m), NaivePred(X, m), 1, <<1>>, Ones(3 - m), AbsE), s) = (IF s[1] = 0 THEN QNan ELSE <<1, 1>>)
====
