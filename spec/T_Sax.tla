---- MODULE T_Sax ----
(* Trace validation of PAA, SAX, 1d-SAX. Data are integers in units of 1/e.u; e.c is the centre of the fitted data when scaling. *)
EXTENDS Sax, TraceIO
VARIABLE l
Guard(e, cl) == IF e.err # "" THEN {"raised " \o e.err} ELSE Failed(cl \o << <<"input-modified", ~e.mod>> >>)
\* population mean and variance of feature k of the fitted data (constant: variance counted as one squared unit of the raw data)
MeanF(A, k) == MeanOf(Present(Flatten([i \in 1..Len(A) |-> Col(A[i], k)])))
VarF(A, k) == LET g == Present(Flatten([i \in 1..Len(A) |-> Col(A[i], k)])) n == Len(g) s == SumSeq(g)
                  q == FoldLeft(LAMBDA a, w: a + w * w, 0, g) IN Q(n * q - s * s, n * n)
\* sign and square (soft) of the standardised value of a rational a (in units 1/u)
StdSq(a, e, k) ==
  IF e.scale THEN LET v == VarF(e.A, k) dv == QSub(a, MeanF(e.A, k)) IN
       IF v[1] = 0 THEN SfSq(SfQ(QDiv(dv, QInt(e.u)))) ELSE SfDiv(SfSq(SfQ(dv)), SfQ(v))
  ELSE SfSq(SfQ(QDiv(a, QInt(e.u))))
StdSign(a, e, k) == IF e.scale THEN QSign(QSub(a, MeanF(e.A, k))) ELSE QSign(a)
\* exact symbols unless scaling introduces rounding
MeanSyms(a, e, k) == IF e.scale THEN Symbols(StdSign(a, e, k), StdSq(a, e, k), e.na, SfOne)
                     ELSE {SymbolOf(QDiv(a, QInt(e.u)), e.na)}
SlopeSyms(a, e, k) ==
  LET z2 == IF e.scale THEN (LET v == VarF(e.A, k) IN IF v[1] = 0 THEN SfSq(SfQ(QDiv(a, QInt(e.u)))) ELSE SfDiv(SfSq(SfQ(a)), SfQ(v)))
            ELSE SfSq(SfQ(QDiv(a, QInt(e.u)))) IN
  Symbols(QSign(a), z2, e.ns, SfQ(e.f2))

Shape(m, n, r, c) == Len(m) = n /\ \A i \in 1..n: Len(m[i]) = r /\ \A j \in 1..r: Len(m[i][j]) = c
JPaa(e) == Guard(e, << <<"shape", Shape(e.out, Len(e.B), e.n, e.d)>>, <<"segment-means", e.out = PaaSet(e.B, e.d, e.n)>> >>)
JPaaInv(e) == Guard(e, << <<"reconstruction", e.out = [i \in 1..Len(e.P) |->
    LET col(k) == Steps0([j \in 1..Len(e.P[i]) |-> e.P[i][j][k]], e.size, QInt(0)) IN [t \in 1..e.size |-> [k \in 1..e.d |-> col(k)[t]]]]>> >>)
JPaaDist(e) ==
  LET p == PaaSet(<<e.x>>, e.d, e.n)[1] r == PaaSet(<<e.y>>, e.d, e.n)[1] w == PaaDist2(p, r, e.size) IN
  Guard(e, << <<"distance", e.v = w>>, <<"distance-of-representations", e.v2 = w>>,
              <<"exceeds-euclidean", e.size % e.n = 0 /\ Len(e.x) = e.size => QLe(e.v, QInt(Ed2(e.x, e.y)))>> >>)
JSax(e) ==
  LET p == PaaSet(e.B, e.d, e.n) IN
  Guard(e, << <<"shape", Shape(e.out, Len(e.B), e.n, e.d)>>,
    <<"symbols", Shape(e.out, Len(e.B), e.n, e.d) => \A i \in 1..Len(e.B): \A j \in 1..e.n: \A k \in 1..e.d: e.out[i][j][k] \in MeanSyms(p[i][j][k], e, k)>> >>)
JOneD(e) ==
  LET p == PaaSet(e.B, e.d, e.n) sl(i, j, k) == Slope(Seg(Col(e.B[i], k), e.n, j)) sh == Shape(e.out, Len(e.B), e.n, 2 * e.d) IN
  Guard(e, << <<"shape", sh>>,
    <<"mean-symbols", sh => \A i \in 1..Len(e.B): \A j \in 1..e.n: \A k \in 1..e.d: e.out[i][j][k] \in MeanSyms(p[i][j][k], e, k)>>,
    <<"slope-symbols", sh => \A i \in 1..Len(e.B): \A j \in 1..e.n: \A k \in 1..e.d: e.out[i][j][e.d + k] \in SlopeSyms(sl(i, j, k), e, k)>> >>)
\* e.P, e.R: symbol matrices
JSaxDist(e) == Guard(e, << <<"sax-distance", SfClose(e.v, SaxDist2(e.P, e.R, e.na, e.size), 16)>> >>)
JCdistSax(e) == Guard(e, << <<"shape", Len(e.out) = Len(e.P) /\ \A i \in 1..Len(e.out): Len(e.out[i]) = Len(e.R)>>,
   <<"sax-distances", \A i \in 1..Len(e.P): \A j \in 1..Len(e.R): SfClose(e.out[i][j], SaxDist2(e.P[i], e.R[j], e.na, e.size), 16)>> >>)
JOneDDist(e) == Guard(e, << <<"distance-of-reconstructions", SfClose(e.v, OneDDist2(e.P, e.R, e.na, e.ns, SfQ(e.f2), e.size), 16)>> >>)
\* reconstructions: <<sign, square>> of the standardised value at every time stamp and dimension; sigma = e.sn / e.sd
RecAt(e, P, t, k) == \* units 1e-8 (means), slopes add sigma * Md * offset
  LET n == Len(P) w == e.size \div n j == (t - 1) \div w + 1 IN
  IF t > n * w THEN 0
  ELSE IF e.ns = 0 THEN Md(e.na)[P[j][k] + 1]
  ELSE LET off == 2 * (t - 1 - (j - 1) * w) - (w - 1)       \* twice the offset from the middle of the segment
       IN Md(e.na)[P[j][k] + 1] + (Md(e.ns)[P[j][e.d + k] + 1] \div (2 * e.sd)) * (e.sn * off)
\* reconstruction of scaled data: value - centre = z * deviation
JInv(e) == Guard(e, << <<"shape", Shape(e.out, Len(e.P), e.size, e.d)>>,
   <<"reconstruction", \A i \in 1..Len(e.P): \A t \in 1..e.size: \A k \in 1..e.d:
       LET z == RecAt(e, e.P[i], t, k) o == e.out[i][t][k] IN
       IF ~e.scale THEN Abs(o[3] - z) <= 60 * (IF e.ns = 0 THEN 1 ELSE e.size)
       ELSE LET v == VarF(e.A, k) u2 == IF v[1] = 0 THEN SfInt(e.u * e.u) ELSE SfQ(v) w == SfMul(SfSq(Sf8(z)), u2) IN
            \/ SfClose(o[2], w, 12) /\ (w[1] = 0 \/ o[1] = (IF z > 0 THEN 1 ELSE -1))
            \/ Abs(z) < 20000 /\ SfLeq(o[2], SfMul(SfSq(Sf8(40000)), u2), 1)>> >>)
JRefuse(e) == Failed(<< <<"accepted what it must refuse: " \o e.what, e.err # "">> >>)
Judge(e) ==
  CASE e.k = "paa" -> JPaa(e)
    [] e.k = "paainv" -> JPaaInv(e)
    [] e.k = "paadist" -> JPaaDist(e)
    [] e.k = "sax" -> JSax(e)
    [] e.k = "oned" -> JOneD(e)
    [] e.k = "saxdist" -> JSaxDist(e)
    [] e.k = "cdistsax" -> JCdistSax(e)
    [] e.k = "oneddist" -> JOneDDist(e)
    [] e.k = "inv" -> JInv(e)
    [] e.k = "refuse" -> JRefuse(e)
    [] OTHER -> {"unknown event"}
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(Trace[l], Judge(Trace[l]))
Spec == Init /\ [][Next]_l
====
