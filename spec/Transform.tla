---- MODULE Transform ----
(* Preprocessing of datasets: scalers, resampling, imputation, synchronisation of features. Inputs are integers or missing. *)
EXTENDS Data, Rat

Col(x, k) == [t \in 1..Len(x) |-> x[t][k]]
Present(s) == SelectSeq(s, LAMBDA v: v # NANN)
Flatten(ss) == FoldLeft(LAMBDA a, s: a \o s, << >>, ss)
\* the observed values that determine the statistics of feature k of series i of A
Group(A, d, i, k, perTs, perFeat) ==
  LET is == IF perTs THEN <<i>> ELSE Idx(Len(A)) ks == IF perFeat THEN <<k>> ELSE Idx(d) IN
  Present(Flatten([a \in 1..Len(is) |-> Flatten([b \in 1..Len(ks) |-> Col(A[is[a]], ks[b])])]))

\* min-max: affine map of the group's range onto [lo, hi]; a constant group keeps its offset from lo (in units u)
MinMaxVal(v, g, lo, hi, u) ==
  LET mn == MinSeq(g) r == MaxSeq(g) - MinSeq(g) IN
  QAdd(lo, QMul(QSub(hi, lo), IF r = 0 THEN QMul(QInt(v - mn), u) ELSE Q(v - mn, r)))
\* standardised value z = (v - mean) / deviation: sign and square (deviation 1 unit when the group is constant)
ZSign(v, g) == LET n == Len(g) s == SumSeq(g) IN IF n * v > s THEN 1 ELSE IF n * v < s THEN -1 ELSE 0
ZSq(v, g, u) ==
  LET n == Len(g) s == SumSeq(g) q == FoldLeft(LAMBDA a, w: a + w * w, 0, g) var == n * q - s * s IN
  IF var = 0 THEN QMul(Q(n * v - s, n), QMul(u, QMul(u, Q(n * v - s, n)))) ELSE Q(Sq(n * v - s), var)

\* value at position a/b (0 <= a/b <= Len(s) - 1, from 0) of the piecewise linear curve through s
Lerp(s, a, b) == LET k == a \div b r == a % b IN
                 IF r = 0 THEN QInt(s[k + 1]) ELSE QAdd(QInt(s[k + 1]), Q((s[k + 2] - s[k + 1]) * r, b))
MeanOf(s) == Q(SumSeq(s), Len(s))
Resample(s, n) == IF n = 1 THEN <<MeanOf(s)>>
                  ELSE [j \in 1..n |-> Lerp(s, (j - 1) * (Len(s) - 1), n - 1)]
ResampleSet(A, d, n) == \* n <= 0: the longest length
  LET m == IF n > 0 THEN n ELSE MaxSize(A) IN
  [i \in 1..Len(A) |-> [t \in 1..m |-> [k \in 1..d |-> Resample(Col(Strip(A[i]), k), m)[t]]]]

\* imputation of one coordinate sequence; QNan where no value can be computed
PrevObs(s, t) == {u \in 1..t: s[u] # NANN}
NextObs(s, t) == {u \in t..Len(s): s[u] # NANN}
MaxOf(S) == CHOOSE a \in S: \A b \in S: b <= a
MinOf(S) == CHOOSE a \in S: \A b \in S: a <= b
Median(s) == LET w == SortSeq(s, <) n == Len(w) IN
             IF n % 2 = 1 THEN QInt(w[(n + 1) \div 2]) ELSE Q(w[n \div 2] + w[n \div 2 + 1], 2)
ImputeAt(s, t, m, c) ==
  LET p == PrevObs(s, t) f == NextObs(s, t) o == Present(s) IN
  IF s[t] # NANN THEN QInt(s[t])
  ELSE IF m = "constant" THEN c
  ELSE IF Len(o) = 0 THEN QNan
  ELSE CASE m = "mean" -> MeanOf(o)
         [] m = "median" -> Median(o)
         [] m = "ffill" -> IF p = {} THEN QNan ELSE QInt(s[MaxOf(p)])
         [] m = "bfill" -> IF f = {} THEN QNan ELSE QInt(s[MinOf(f)])
         [] m = "linear" -> IF p = {} THEN QInt(s[MinOf(f)]) ELSE IF f = {} THEN QInt(s[MaxOf(p)])
                            ELSE LET a == MaxOf(p) b == MinOf(f) IN QAdd(QInt(s[a]), Q((s[b] - s[a]) * (t - a), b - a))
Impute(x, d, m, c) == \* x: all its points are imputed
  [t \in 1..Len(x) |-> [k \in 1..d |-> ImputeAt(Col(x, k), t, m, c)]]
QMissing(p) == \A k \in 1..Len(p): IsNan(p[k])
QSize(x) == CHOOSE s \in 0..Len(x): (s = 0 \/ ~QMissing(x[s])) /\ \A k \in (s + 1)..Len(x): QMissing(x[k])
QFormat(X, d) == LET m == FoldLeft(LAMBDA a, s: Max2(a, QSize(s)), 0, X) IN
                 [i \in 1..Len(X) |-> [t \in 1..m |-> IF t <= QSize(X[i]) THEN X[i][t] ELSE [k \in 1..d |-> QNan]]]
ImputeSet(A, d, m, c, keep) ==
  LET F == Format(A, d) IN
  QFormat([i \in 1..Len(A) |-> Impute(IF keep THEN Strip(F[i]) ELSE F[i], d, m, c)], d)

\* synchronisation: every feature is read on the time grid of the reference feature
ColSize(s) == CHOOSE n \in 0..Len(s): (n = 0 \/ s[n] # NANN) /\ \A k \in (n + 1)..Len(s): s[k] = NANN
ReadAt(ts, vs, t) == \* piecewise linear, constant outside
  IF t <= ts[1] THEN QInt(vs[1])
  ELSE IF t >= ts[Len(ts)] THEN QInt(vs[Len(vs)])
  ELSE LET k == CHOOSE k \in 1..(Len(ts) - 1): ts[k] <= t /\ t < ts[k + 1] IN
       QAdd(QInt(vs[k]), Q((vs[k + 1] - vs[k]) * (t - ts[k]), ts[k + 1] - ts[k]))
SyncRegular(x, ref, k) ==
  LET n == ColSize(Col(x, ref)) f == ColSize(Col(x, k)) v == SubSeq(Col(x, k), 1, f) IN
  [j \in 1..n |-> IF n = 1 \/ f = 1 THEN QInt(v[1]) ELSE Lerp(v, (j - 1) * (f - 1), n - 1)]
SyncStamped(x, T, ref, k) ==
  LET n == ColSize(Col(x, ref)) f == ColSize(Col(x, k)) IN
  [j \in 1..n |-> ReadAt(SubSeq(Col(T, k), 1, f), SubSeq(Col(x, k), 1, f), T[j][ref])]
SyncSet(A, d, ref, stamped, T) ==
  LET F == Format(A, d)
      m == FoldLeft(LAMBDA a, i: Max2(a, ColSize(Col(F[i], ref))), 0, Idx(Len(F)))
      S(i, k) == IF stamped THEN SyncStamped(F[i], T[i], ref, k) ELSE SyncRegular(F[i], ref, k)
  IN [i \in 1..Len(F) |-> LET n == ColSize(Col(F[i], ref)) IN
       [t \in 1..m |-> [k \in 1..d |-> IF t <= n THEN S(i, k)[t] ELSE QNan]]]
====
