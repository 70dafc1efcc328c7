---- MODULE MatrixProfile ----
(* Matrix profile of a one-dimensional series: squared distance of every subsequence of length m to the nearest one outside its exclusion zone. *)
EXTENDS Core
Excl(m) == (m + 3) \div 4
Far(i, j, m) == Abs(i - j) > Excl(m)
Seg(x, i, m) == [t \in 1..m |-> x[i + t - 1]]
Count0(x, m) == IF Len(x) < m THEN 0 ELSE Len(x) - m + 1
\* integer square root of 0 <= a < 2^30
ISqrt(a) == FoldLeft(LAMBDA r, k: LET c == r + Pow2(15 - k) IN IF c * c <= a THEN c ELSE r, 0, Idx(15))
\* a / b over 2^28 for 0 <= a <= b < 2^30, b > 0 (binary long division)
Ratio(a, b) == IF a = b THEN Pow2(28) ELSE
  FoldLeft(LAMBDA s, k: IF 2 * s[2] >= b THEN <<2 * s[1] + 1, 2 * s[2] - b>> ELSE <<2 * s[1], 2 * s[2]>>, <<0, a>>, Idx(28))[1]
\* m^2 times variance and covariance
Cov(u, v) == Len(u) * Sum(Len(u), LAMBDA t: u[t] * v[t]) - SumSeq(u) * SumSeq(v)
\* correlation over 2^14
Corr(u, v) == LET p == Cov(u, v) r == ISqrt(Ratio(p * p, Cov(u, u) * Cov(v, v))) IN IF p < 0 THEN -r ELSE r
Z == 1024
\* squared distance of the standardised segments over Z (a constant segment is standardised to 0)
ZD(u, v) == LET m == Len(u) cu == Cov(u, u) = 0 cv == Cov(v, v) = 0 IN
  IF cu /\ cv THEN 0 ELSE IF cu \/ cv THEN m * Z ELSE (2 * m * (16384 - Corr(u, v))) \div 16
RawD(u, v) == Sum(Len(u), LAMBDA t: Sq(u[t] - v[t]))
\* D: distance of two segments
Profile(x, m, D(_, _)) ==
  LET n == Count0(x, m) s == [i \in 1..n |-> Seg(x, i, m)] IN
  [i \in 1..n |-> LET c == {j \in 1..n : Far(i, j, m)} IN
     IF c = {} THEN INF ELSE FoldLeft(LAMBDA a, j: IF j \in c THEN Min2(a, D(s[i], s[j])) ELSE a, INF, Idx(n))]
====
