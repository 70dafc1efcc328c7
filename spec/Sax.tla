---- MODULE Sax ----
(* Piecewise aggregation (PAA), symbolic aggregation (SAX) and its variant with slopes (1d-SAX). *)
EXTENDS Transform, SoftFloat, SaxTable

\* segment j (1..n) of a sequence: floor(len/n) points each, the remainder is not represented
SegLen(s, n) == Len(s) \div n
Seg(s, n, j) == SubSeq(s, (j - 1) * SegLen(s, n) + 1, j * SegLen(s, n))
Paa(s, n) == [j \in 1..n |-> MeanOf(Seg(s, n, j))]
PaaSet(A, d, n) == [i \in 1..Len(A) |-> [j \in 1..n |-> [k \in 1..d |-> Paa(Col(Strip(A[i]), k), n)[j]]]]
\* a step function over the original length; points beyond the last full segment are 0
Steps0(v, size, zero) == LET n == Len(v) w == size \div n IN [t \in 1..size |-> IF t > n * w THEN zero ELSE v[(t - 1) \div w + 1]]
PaaDist2(p, r, size) == \* p, r: matrices (segment, dimension) of rationals
  QMul(QSumSeq([j \in 1..Len(p) |-> QSumSeq([k \in 1..Len(p[1]) |-> LET x == QSub(p[j][k], r[j][k]) IN QMul(x, x)])]), Q(size, Len(p)))
Ed2(x, y) == Sum(Len(x), LAMBDA t: SqD(x[t], y[t]))

\* soft float of |p/q|, of |v| * 1e-8
SfQ(a) == IF a[1] = 0 THEN SfZero ELSE SfDiv(SfInt(Abs(a[1])), SfInt(a[2]))
E8 == SfDiv(SfOne, SfInt(100000000))
Sf8(v) == SfMul(SfInt(Abs(v)), E8)
SfSq(a) == SfMul(a, a)
\* order of a value (sign sg, square z2 as soft float) and a quantile (units 1e-8, scaled by a factor of square f2): "lt", "gt" or "tie"
Order(sg, z2, b, f2) ==
  LET b2 == SfMul(SfSq(Sf8(b)), f2) sb == IF b > 0 THEN 1 ELSE IF b < 0 THEN -1 ELSE 0 IN
  IF SfClose(z2, b2, 14) /\ (sg = sb \/ z2[1] = 0) THEN "tie"
  ELSE IF sg # sb THEN (IF sg < sb THEN "lt" ELSE "gt")
  ELSE IF SfLeq(z2, b2, 20) = (sg > 0) THEN "lt" ELSE "gt"
\* admissible symbols (from 0) of such a value; a tie admits both neighbours
Symbols(sg, z2, n, f2) ==
  LET lo == Cardinality({k \in 1..(n - 1): Order(sg, z2, Bp(n)[k], f2) = "gt"})
      hi == Cardinality({k \in 1..(n - 1): Order(sg, z2, Bp(n)[k], f2) # "lt"}) IN lo..hi
\* symbol of an exact rational (no tie but at 0, which belongs to the upper symbol)
SymbolOf(a, n) == LET S == Symbols(QSign(a), SfSq(SfQ(a)), n, SfOne) IN CHOOSE s \in S: \A r \in S: r <= s
\* least-squares slope of a sequence against time
Slope(s) == LET n == Len(s) IN
  IF n = 1 THEN QInt(0)
  ELSE LET st == (n * (n - 1)) \div 2 sx == SumSeq(s)
           sxt == Sum(n, LAMBDA t: (t - 1) * s[t]) stt == ((n - 1) * n * (2 * n - 1)) \div 6
       IN Q(n * sxt - st * sx, n * stt - st * st)
\* MINDIST squared, in soft floats: symbols one apart (or equal) do not count
SaxGap(a, b, n) == IF Abs(a - b) <= 1 THEN SfZero ELSE Sf8(Bp(n)[Max2(a, b)] - Bp(n)[Min2(a, b) + 1])
SaxDist2(p, r, n, size) ==
  SfMul(SfSum([j \in 1..Len(p) |-> SfSum([k \in 1..Len(p[1]) |-> SfSq(SaxGap(p[j][k], r[j][k], n))])]), SfDiv(SfInt(size), SfInt(Len(p))))
\* 1d-SAX: squared distance of the reconstructions over the full segments; column k is the mean symbol, column d + k the slope symbol
OneDDist2(p, r, na, ns, f2, size) ==
  LET n == Len(p) w == size \div n d == Len(p[1]) \div 2
      tt == SfDiv(SfInt(w * (w * w - 1)), SfInt(12)) IN
  SfSum([j \in 1..n |-> SfSum([k \in 1..d |->
     SfAdd(SfMul(SfInt(w), SfSq(Sf8(Md(na)[p[j][k] + 1] - Md(na)[r[j][k] + 1]))),
           SfMul(tt, SfMul(f2, SfSq(Sf8(Md(ns)[p[j][d + k] + 1] - Md(ns)[r[j][d + k] + 1])))))])])
====
