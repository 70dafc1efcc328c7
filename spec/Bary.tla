---- MODULE Bary ----
(* Barycenters: weighted means, the averaging step under optimal alignments (DBA), and the iteration that repeats it. *)
EXTENDS Transform, Elastic

WMean(vs, ws) == \* weighted mean of integers
  Q(Sum(Len(vs), LAMBDA i: vs[i] * ws[i]), SumSeq(ws))
EuclBary(A, w, d) == [t \in 1..Len(A[1]) |-> [k \in 1..d |-> WMean([i \in 1..Len(A) |-> A[i][t][k]], w)]]

\* default starting point: unweighted mean of the observed values at each time stamp, interpolated to m points
PointMean(A, t, k) == MeanOf(Present([i \in 1..Len(A) |-> A[i][t][k]]))
QLerp(s, a, b) == LET k == a \div b r == a % b IN
                  IF r = 0 THEN s[k + 1] ELSE QAdd(s[k + 1], QMul(QSub(s[k + 2], s[k + 1]), Q(r, b)))
DbaStart(A, d, m) ==
  LET n == Len(A[1]) avg(k) == [t \in 1..n |-> PointMean(A, t, k)] IN
  [j \in 1..m |-> [k \in 1..d |-> IF m = n THEN avg(k)[j] ELSE IF m = 1 \/ n = 1 THEN avg(k)[1] ELSE QLerp(avg(k), (j - 1) * (n - 1), m - 1)]]
SoftStart(A, w, d) == \* series of different lengths are resampled to the longest first
  LET L == MaxSize(A) R == ResampleSet(A, d, L) IN
  [t \in 1..L |-> [k \in 1..d |-> QDiv(QSumSeq([i \in 1..Len(A) |-> QMul(R[i][t][k], QInt(w[i]))]), QInt(SumSeq(w)))]]

(* ---- one averaging step ----
   An alignment of the barycenter b with a series x contributes to every row i of b the points of x aligned with it: their
   number and their sum. Contribs is the set of contributions of all optimal alignments (row-wise sequences <<number, sum>>). *)
Extend(cs, i, x) == \* cs: contributions of the predecessor whose last row is Len(c) (i or i - 1)
  {IF Len(c) = i THEN [c EXCEPT ![i] = <<c[i][1] + 1, [k \in 1..Len(x) |-> c[i][2][k] + x[k]]>>] ELSE Append(c, <<1, x>>) : c \in cs}
Contribs(b, x, Ok(_, _)) ==
  LET n == Len(b) m == Len(x) none == [c |-> INF, s |-> {}]
      G == Grid(n, m, none, LAMBDA i, j, dg, up, lf:
        IF ~Ok(i, j) THEN none
        ELSE IF i = 1 /\ j = 1 THEN [c |-> SqD(b[1], x[1]), s |-> {<< <<1, x[1]>> >>}]
        ELSE LET best == Min3(dg.c, up.c, lf.c) IN
             IF best >= INF THEN none
             ELSE [c |-> best + SqD(b[i], x[j]),
                   s |-> UNION {IF p.c = best THEN Extend(p.s, i, x[j]) ELSE {} : p \in {dg, up, lf}}])
  IN G[n][m]
Weigh(c, w) == [i \in 1..Len(c) |-> <<w * c[i][1], [k \in 1..Len(c[i][2]) |-> w * c[i][2][k]]>>]
Merge(p, c) == [i \in 1..Len(c) |-> <<p[i][1] + c[i][1], [k \in 1..Len(c[i][2]) |-> p[i][2][k] + c[i][2][k]]>>]
\* all barycenters an averaging step from b may give (one unless alignments tie)
DbaSteps(b, A, w, Ok(_, _, _)) ==
  LET S(i) == LET x == Strip(A[i]) IN {Weigh(c, w[i]) : c \in Contribs(b, x, LAMBDA p, q: Ok(p, q, Len(x))).s}
      all == FoldLeft(LAMBDA acc, i: {Merge(p, c) : p \in acc, c \in S(i)}, S(1), [i \in 1..(Len(A) - 1) |-> i + 1])
  IN {[i \in 1..Len(b) |-> [k \in 1..Len(b[1]) |-> Q(c[i][2][k], c[i][1])]] : c \in all}
DbaCost(b, A, w, Ok(_, _, _)) == Q(Sum(Len(A), LAMBDA i: LET x == Strip(A[i]) IN w[i] * Dtw(Len(b), Len(x), LAMBDA p, q: SqD(b[p], x[q]), LAMBDA p, q: Ok(p, q, Len(x)))), SumSeq(w))
\* subgradient step on one series: b - 2 eta rw (V b - W x), rw the weight relative to the mean weight
SubSteps(b, x, eta, rw, Ok(_, _, _)) == \* b, x integers
  {[i \in 1..Len(b) |-> [k \in 1..Len(b[1]) |-> QSub(QInt(b[i][k]), QMul(QMul(QInt(2), QMul(eta, rw)), QInt(c[i][1] * b[i][k] - c[i][2][k])))]]
    : c \in Contribs(b, x, LAMBDA p, q: Ok(p, q, Len(x))).s}

(* ---- the iteration: repeat steps until the cost changes by less than tol or grows, or maxIter steps were made ----
   costs[k + 1]: cost of the k-th iterate (fixed point, errors up to slack). Result: indices of the iterates that may be returned. *)
MustStop(c, k, tol, s) == k >= 1 /\ (Abs(c[k] - c[k + 1]) + s < tol \/ c[k] + s < c[k + 1])
MayStop(c, k, tol, s) == k >= 1 /\ (Abs(c[k] - c[k + 1]) < tol + s \/ c[k] < c[k + 1] + s)
\* an iterate whose cost ends the loop is still updated once more
StopsAt(c, maxIter, tol, s) ==
  {k \in 0..maxIter: (k = maxIter \/ (k >= 1 /\ MayStop(c, k - 1, tol, s))) /\ \A j \in 0..(k - 2): ~MustStop(c, j, tol, s)}
====
