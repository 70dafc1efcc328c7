---- MODULE T_Cluster ----
(* Trace validation of the clustering algorithms and the silhouette. Series are integers. *)
EXTENDS Cluster, TraceIO
VARIABLE l
Guard(e, cl) == IF e.err # "" THEN {"raised " \o e.err} ELSE Failed(cl \o << <<"input-modified", ~e.mod>> >>)
Close(a, b, s) == Len(a) = Len(b) /\ \A i \in 1..Len(a): Abs(a[i] - b[i]) <= s
Close2(a, b, s) == Len(a) = Len(b) /\ \A i \in 1..Len(a): Close(a[i], b[i], s)
Near(v, j, s) == \A k \in 1..Len(v): v[j] <= v[k] + s

(* ---- k-means ---- *)
JLloyd(e) ==
  LET Ok(p, q, n, m) == Admissible(e.gc, n, m, p, q)
      I0 == [j \in 1..Len(e.C0) |-> [t \in 1..Len(e.C0[j]) |-> [k \in 1..e.d |-> QInt(e.C0[j][t][k])]]]
      L0 == {lab \in Labelings(Dists(e.metric, e.A, I0, 1, Ok)) : NoEmpty(lab, Len(e.C0))}
      D1 == Dists(e.metric, e.A, e.C1, e.u, Ok)
  IN IF L0 = {} THEN {}
     ELSE Guard(e, << <<"not-one-step", \E lab \in L0: \A j \in 1..Len(e.C0): e.C1[j] \in Updated(e.metric, e.A, e.C0, lab, j, e.d, Ok)>>,
       <<"transform", e.u > 0 => e.T2 = D1>>,
       <<"labels", e.u > 0 => \A i \in 1..Len(e.A): e.lab[i] \in ArgMins(D1[i])>>,
       <<"predict", e.u > 0 => \A i \in 1..Len(e.A): e.pred[i] \in ArgMins(D1[i])>>,
       <<"inertia", e.u > 0 => e.inert = Sum(Len(e.A), LAMBDA i: MinSeq(D1[i]))>>,
       <<"iterations", e.iter = 1>> >>)
\* chain of single steps (inertias and centres in fixed point) against one run
JKmRun(e) ==
  Guard(e, << <<"stops-at-another-iterate", \E k \in KmEnds(e.costs, e.maxit, e.tol, 3): Close2(e.out, e.chain[k + 1], 5) /\ e.iter = k /\ Abs(e.inert - e.costs[k + 1]) <= 3>>,
              <<"inertia-increases", \A k \in 1..(Len(e.costs) - 1): e.costs[k + 1] <= e.costs[k] + 3>> >>)
JCover(e) == Guard(e, << <<"inertia-not-zero", e.inert = 0>>, <<"labels", \A i, j \in 1..Len(e.lab): (e.lab[i] = e.lab[j]) = (i = j)>> >>)
JKmBest(e) == Guard(e, << <<"worse-than-fewer-attempts", e.best <= e.one + 3>> >>)
\* fits of n seeds, where an attempt leaves no cluster empty with probability below 0.3, and one of ten does above 0.9
JRetry(e) == Guard(e, << <<"attempts-not-repeated", 10 * e.succ >= 7 * e.n>> >>)
\* fitted model: T is transform(X), R the distance function of the metric, both in fixed point
JKmFit(e) ==
  Guard(e, << <<"transform", Close2(e.T, e.R, 3)>>,
    <<"predict", Len(e.pred) = Len(e.R) /\ \A i \in 1..Len(e.R): e.pred[i] \in 1..e.kk /\ Near(e.R[i], e.pred[i], 3)>>,
    <<"labels", e.lab = e.pred0>>,
    <<"labels-not-nearest", \A i \in 1..Len(e.lab): e.lab[i] \in 1..e.kk /\ Near(e.R0[i], e.lab[i], 3)>>,
    <<"empty-cluster", \A j \in 1..e.kk: \E i \in 1..Len(e.lab): e.lab[i] = j>>,
    <<"inertia", e.metric # "softdtw" => Abs(e.inert * Len(e.lab) - Sum(Len(e.lab), LAMBDA i: e.S0[i])) <= 5 * Len(e.lab)>>,
    <<"centres", e.full /\ e.shape = e.want>>,
    <<"iterations", e.iter \in 1..e.maxit>>,
    <<"fit-predict", e.fp = e.lab>>,
    <<"params-modified", ~e.pmod>> >>)

(* ---- kernel k-means ---- *)
JKernel(e) ==
  LET P == {p \in [1..Len(e.K) -> 1..e.kk] : NoEmpty(p, e.kk)}
      from(p) == LET D == KDists(e.K, e.sw, p, e.kk) IN
        /\ \A i \in 1..Len(e.K): e.lab[i] \in QArgMins(D[i])
        /\ e.inert = KInertia(D)
      DY == KDistsY(e.KY, e.sw, e.lab, e.kk)
  IN Guard(e, << <<"labels-not-a-reassignment", \E p \in P: from(p)>>,
                 <<"predict", Len(e.pred) = Len(e.KY) /\ \A i \in 1..Len(e.KY): e.pred[i] \in QArgMins(DY[i])>>,
                 <<"empty-cluster", NoEmpty(e.lab, e.kk)>>,
                 <<"fit-predict", e.fp = e.lab>>, <<"params-modified", ~e.pmod>>, <<"iterations", e.iter \in 1..e.maxit>> >>)
\* one attempt cut off after 1, 2, ... iterations: successive labelings and inertias
JKChain(e) ==
  LET D(k) == KDists(e.K, e.sw, e.labs[k], e.kk)
      \* the run stops at the first iteration whose inertia is within tol (in units 1/e.tolden) of the one before
      stop(k) == k >= 2 /\ LET g == QSub(e.inerts[k - 1], e.inerts[k]) IN QAbs(g)[1] * e.tolden < g[2]
      Live(k) == \A j \in 1..k: ~stop(j)
  IN Guard(e, << <<"step", \A k \in 1..(Len(e.labs) - 1): Live(k) => e.labs[k + 1] \in KStep(e.K, e.sw, e.labs[k], e.kk) /\ e.inerts[k + 1] = KInertia(D(k))>>,
                 <<"stop", \A k \in 1..(Len(e.labs) - 1): ~Live(k) => e.labs[k + 1] = e.labs[k] /\ e.iters[k + 1] = e.iters[k]>>,
                 <<"iterations", \A k \in 1..Len(e.labs): (k = 1 \/ Live(k - 1)) => e.iters[k] = k>> >>)
\* global alignment kernel: similarities in fixed point (unit 1/10^6)
KMean(K, sw, lab, i, j) == LET M == Members(lab, j) IN Sum(Len(M), LAMBDA a: sw[M[a]] * K[i][M[a]]) \div Sum(Len(M), LAMBDA a: sw[M[a]])
JGak(e) ==
  LET M == [i \in 1..Len(e.KY) |-> [j \in 1..e.kk |-> KMean(e.KY, e.sw, e.lab, i, j)]]
      P == {p \in [1..Len(e.K) -> 1..e.kk] : NoEmpty(p, e.kk)}
      from(p) == LET N == [i \in 1..Len(e.K) |-> [j \in 1..e.kk |-> KMean(e.K, e.sw, p, i, j)]] IN
        /\ \A i \in 1..Len(e.K): \A j \in 1..e.kk: N[i][e.lab[i]] + 3 >= N[i][j]
        /\ Abs(e.inert - Sum(Len(e.K), LAMBDA i: 2000000 - 2 * MaxSeq(N[i]))) <= 6 * Len(e.K)
  IN Guard(e, << <<"labels-not-a-reassignment", \E p \in P: from(p)>>,
                 <<"predict", \A i \in 1..Len(e.KY): \A j \in 1..e.kk: M[i][e.pred[i]] + 3 >= M[i][j]>>,
                 <<"params-modified", ~e.pmod>>, <<"refit-differs", e.refit>> >>)

(* ---- density-based clustering ---- *)
\* squared distances between series
DbD(e) ==
  CASE e.metric = "precomputed" -> e.D
    [] e.metric = "given" -> e.D
    [] OTHER -> [i \in 1..Len(e.A) |-> [j \in 1..Len(e.A) |->
         LET x == Strip(e.A[i]) y == Strip(e.A[j]) IN
         CASE e.metric = "euclidean" -> ED2(x, y)
           [] e.metric = "frechet" -> Fre(Len(x), Len(y), LAMBDA p, q: SqD(x[p], y[q]), LAMBDA p, q: Admissible(e.gc, Len(x), Len(y), p, q))
           [] OTHER -> Dtw(Len(x), Len(y), LAMBDA p, q: SqD(x[p], y[q]), LAMBDA p, q: Admissible(e.gc, Len(x), Len(y), p, q))]]
JDbscan(e) ==
  LET D == DbD(e)
      near == [i \in 1..Len(D) |-> {j \in 1..Len(D): D[i][j] <= e.e2}]
      core == Core_(near, e.mts)
  IN Guard(e, << <<"core-series", e.core = SetToSortSeq({i - 1 : i \in core}, <)>>,
                 <<"labels", e.lab = DbscanLabels(near, e.mts)>>,
                 <<"components", e.comp>>, <<"fit-predict", e.fp = e.lab>>, <<"params-modified", ~e.pmod>> >>)

(* ---- silhouette ---- *)
SumAll(x) == Sum(Len(x), LAMBDA t: SumSeq(x[t]))
JSil(e) ==
  LET D == IF e.metric = "callable"
           THEN [i \in 1..Len(e.A) |-> [j \in 1..Len(e.A) |-> IF i = j THEN 0 ELSE
                   LET x == Strip(e.A[i]) y == Strip(e.A[j]) IN e.c * Abs(SumAll(x) - SumAll(y)) + e.c2 * Abs(Len(x) - Len(y))]]
           ELSE e.D
  IN Guard(e, << <<"score", Abs(e.out - SilhouetteS(D, e.lab, 1000000)) <= 3>> >>)
\* a metric by name against the precomputed distances of that metric
JSilMetric(e) == Guard(e, << <<"score-differs-from-precomputed", Abs(e.out - e.ref) <= 1>> >>)
Judge(e) ==
  CASE e.k = "lloyd" -> JLloyd(e)
    [] e.k = "kmrun" -> JKmRun(e)
    [] e.k = "cover" -> JCover(e)
    [] e.k = "kmbest" -> JKmBest(e)
    [] e.k = "retry" -> JRetry(e)
    [] e.k = "kmfit" -> JKmFit(e)
    [] e.k = "kernel" -> JKernel(e)
    [] e.k = "kchain" -> JKChain(e)
    [] e.k = "gak" -> JGak(e)
    [] e.k = "dbscan" -> JDbscan(e)
    [] e.k = "sil" -> JSil(e)
    [] e.k = "silm" -> JSilMetric(e)
    [] OTHER -> {"unknown event"}
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(Trace[l], Judge(Trace[l]))
Spec == Init /\ [][Next]_l
====
