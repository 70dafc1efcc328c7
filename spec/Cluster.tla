---- MODULE Cluster ----
(* Centroid-based clustering (k-means with the Euclidean, DTW distances), kernel k-means, density-based clustering, silhouettes. *)
EXTENDS Bary

(* ---- k-means ---- *)
\* squared distance between a series x and a centre c in units of 1/u (integers); Euclidean compares time stamps, DTW aligns
ED2(x, c) == Sum(Len(c), LAMBDA t: SqD(x[t], c[t]))
Dist2(metric, x, c, Ok(_, _, _, _)) ==
  IF metric = "euclidean" THEN ED2(x, c)
  ELSE Dtw(Len(x), Len(c), LAMBDA p, q: SqD(x[p], c[q]), LAMBDA p, q: Ok(p, q, Len(x), Len(c)))
ArgMins(v) == {j \in 1..Len(v): \A k \in 1..Len(v): v[j] <= v[k]}
\* common denominator of rational centres, and centres / series brought to integers
Lcm(a, b) == (a \div Gcd(a, b)) * b
DenOf(C) == FoldLeft(LAMBDA a, c: FoldLeft(LAMBDA b, p: FoldLeft(LAMBDA g, v: IF g > 400 THEN g ELSE Lcm(g, v[2]), b, p), a, c), 1, C)
ScaleC(C, u) == [j \in 1..Len(C) |-> [t \in 1..Len(C[j]) |-> [k \in 1..Len(C[j][t]) |-> C[j][t][k][1] * (u \div C[j][t][k][2])]]]
ScaleX(A, u) == [i \in 1..Len(A) |-> LET x == Strip(A[i]) IN [t \in 1..Len(x) |-> [k \in 1..Len(x[t]) |-> u * x[t][k]]]]
\* matrix of squared distances in units 1/u^2
Dists(metric, A, C, u, Ok(_, _, _, _)) ==
  LET X == ScaleX(A, u) Z == ScaleC(C, u) IN [i \in 1..Len(A) |-> [j \in 1..Len(C) |-> Dist2(metric, X[i], Z[j], Ok)]]
Members(lab, j) == SelectSeq(Idx(Len(lab)), LAMBDA i: lab[i] = j)
Pick(A, is) == [i \in 1..Len(is) |-> A[is[i]]]
\* all labelings by nearest centre
Labelings(D) == {lab \in [1..Len(D) -> 1..Len(D[1])] : \A i \in 1..Len(D): lab[i] \in ArgMins(D[i])}
NoEmpty(lab, k) == \A j \in 1..k: \E i \in 1..Len(lab): lab[i] = j
\* centres after one update from integer centres C under labeling lab: means, or one averaging step (a set per centre)
Updated(metric, A, C, lab, j, d, Ok(_, _, _, _)) ==
  LET M == Pick(A, Members(lab, j)) IN
  IF metric = "euclidean" THEN {EuclBary(M, [i \in 1..Len(M) |-> 1], d)}
  ELSE DbaSteps(C[j], M, [i \in 1..Len(M) |-> 1], LAMBDA p, q, m: Ok(q, p, m, Len(C[j])))
Inertia(D, lab) == Q(Sum(Len(D), LAMBDA i: D[i][lab[i]]), Len(D))

\* the iteration ends after the update that follows an inertia within tol of the one before (c[k + 1]: inertia of the k-th centres)
KmEnds(c, maxIter, tol, s) ==
  {k \in 1..maxIter: (k = maxIter \/ (k >= 2 /\ Abs(c[k - 1] - c[k]) < tol + s)) /\ \A j \in 2..(k - 1): Abs(c[j - 1] - c[j]) + s >= tol}

(* ---- kernel k-means: distance of i to cluster j is 2 - 2 times its weighted mean similarity to the members ---- *)
KDist(K, sw, lab, i, j) ==
  LET M == Members(lab, j) IN
  QSub(QInt(2), QMul(QInt(2), Q(Sum(Len(M), LAMBDA a: sw[M[a]] * K[i][M[a]]), Sum(Len(M), LAMBDA a: sw[M[a]]))))
KDists(K, sw, lab, k) == [i \in 1..Len(K) |-> [j \in 1..k |-> KDist(K, sw, lab, i, j)]]
\* the same for other series (K: similarities to the fitted series)
KDistsY(K, sw, lab, k) == [i \in 1..Len(K) |-> [j \in 1..k |-> KDist(K, sw, lab, i, j)]]
QArgMins(v) == {j \in 1..Len(v): \A k \in 1..Len(v): QLe(v[j], v[k])}
QMinSeq(v) == FoldLeft(QMin, v[1], v)
\* one reassignment from labeling lab (no cluster of which is empty)
KStep(K, sw, lab, k) == LET D == KDists(K, sw, lab, k) IN {m \in [1..Len(K) -> 1..k] : \A i \in 1..Len(K): m[i] \in QArgMins(D[i])}
KInertia(D) == QSumSeq([i \in 1..Len(D) |-> QMinSeq(D[i])])

(* ---- density-based clustering: near[i] is the set of series within eps of series i (itself included) ---- *)
Core_(near, m) == {i \in 1..Len(near): Cardinality(near[i]) >= m}
RECURSIVE Reach(_, _, _)
Reach(near, core, S) == LET T == S \cup UNION {near[i] \cap core : i \in S} IN IF T = S THEN S ELSE Reach(near, core, T)
MinOfSet(S) == CHOOSE a \in S: \A b \in S: a <= b
\* the cluster of a core series is named by its smallest core series; clusters are numbered in this order
Leader(near, core, i) == MinOfSet(Reach(near, core, {i}))
Leaders(near, core) == {Leader(near, core, i) : i \in core}
Rank(S, a) == Cardinality({b \in S: b < a})
\* border series go to one of the clusters of the core series near them (the first one); noise is -1
DbscanLabels(near, m) ==
  LET core == Core_(near, m) L == Leaders(near, core) IN
  [i \in 1..Len(near) |-> IF i \in core THEN Rank(L, Leader(near, core, i))
                          ELSE LET c == {b \in core: i \in near[b]} IN
                               IF c = {} THEN -1 ELSE Rank(L, MinOfSet({Leader(near, core, b) : b \in c}))]

(* ---- silhouette of a labeling, from integer distances ---- *)
Others(lab, i) == SelectSeq(Idx(Len(lab)), LAMBDA a: a # i /\ lab[a] = lab[i])
MeanDist(D, i, M) == Q(Sum(Len(M), LAMBDA a: D[i][M[a]]), Len(M))
SilA(D, lab, i) == MeanDist(D, i, Others(lab, i))
SilB(D, lab, i) == LET ls == {lab[a] : a \in 1..Len(lab)} \ {lab[i]}
                       v == {MeanDist(D, i, SelectSeq(Idx(Len(lab)), LAMBDA a: lab[a] = x)) : x \in ls}
                   IN CHOOSE q \in v: \A r \in v: QLe(q, r)
Sil(D, lab, i) == IF Len(Others(lab, i)) = 0 THEN QInt(0)
                  ELSE LET a == SilA(D, lab, i) b == SilB(D, lab, i) m == QMax(a, b) IN IF m[1] = 0 THEN QInt(0) ELSE QDiv(QSub(b, a), m)
\* the same in fixed point (unit 1/S), to stay within small numbers
SilS(D, lab, i, S) == IF Len(Others(lab, i)) = 0 THEN 0
                   ELSE LET a == SilA(D, lab, i) b == SilB(D, lab, i) m == QMax(a, b) q == QSub(b, a)
                            num == q[1] * (m[2] \div Gcd(m[2], q[2])) den == m[1] * (q[2] \div Gcd(m[2], q[2]))
                        IN IF m[1] = 0 THEN 0 ELSE (num * S) \div den
SilhouetteS(D, lab, S) == Sum(Len(lab), LAMBDA i: SilS(D, lab, i, S)) \div Len(lab)
Silhouette(D, lab) == QDiv(QSumSeq([i \in 1..Len(lab) |-> Sil(D, lab, i)]), QInt(Len(lab)))
====
