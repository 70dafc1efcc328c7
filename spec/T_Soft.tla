---- MODULE T_Soft ----
(* Trace validation of soft-DTW, the global alignment kernel, pairwise matrices and backend parity.
   Recorded values: z = 2^(-S / (gamma ln 2)) as SoftFloat; E = alignment entries in 2^-20; G = gradients / 2 in 2^-20. *)
EXTENDS Soft, TraceIO
VARIABLE l

CostOf(x, y, g) == [i \in 1..Len(x) |-> [j \in 1..Len(y) |-> g * SqD(x[i], y[j])]]
Reg(e, n, m) == RegionMatrix(e.gc, n, m)
OpenS(e, n, m) == e.gc.t = "ita" /\ ItaTie(n, m, e.gc.a, e.gc.b)
ZOf(x, y, g, gc) ==
  LET n == Len(x) m == Len(y) c == CostOf(x, y, g) r == RegionMatrix(gc, n, m)
      C(i, j) == c[i][j] Ok(i, j) == r[i][j]
  IN ZGrid(n, m, C, Ok)[n][m]
GakOf(x, y, g) == LET c == CostOf(x, y, g) C(i, j) == c[i][j] IN Gak(Len(x), Len(y), C)
Dtw2Of(x, y, gc) ==
  LET n == Len(x) m == Len(y) c == CostOf(x, y, 1) r == RegionMatrix(gc, n, m)
      C(i, j) == c[i][j] Ok(i, j) == r[i][j]
  IN Dtw(n, m, C, Ok)
FreOf(x, y, gc) ==
  LET n == Len(x) m == Len(y) c == CostOf(x, y, 1) r == RegionMatrix(gc, n, m)
      C(i, j) == c[i][j] Ok(i, j) == r[i][j]
  IN Fre(n, m, C, Ok)
\* normalised: z^2 Zxx Zyy = Zxy^2
NormOk(z, x, y, g, gc, tol) ==
  LET zxy == ZOf(x, y, g, gc) zxx == ZOf(x, x, g, gc) zyy == ZOf(y, y, g, gc) IN
  IF zxy[1] = 0 \/ zxx[1] = 0 \/ zyy[1] = 0 THEN zxx[1] # 0 /\ zyy[1] # 0 => z = SfZero
  ELSE IsSf(z) /\ z[1] # 0 /\ SfClose(SfMul(SfMul(z, z), SfMul(zxx, zyy)), SfMul(zxy, zxy), tol)
GakNormOk(v, x, y, g, tol) ==
  IsSf(v) /\ v[1] # 0 /\ SfClose(SfMul(SfMul(v, v), SfMul(GakOf(x, x, g), GakOf(y, y, g))), SfMul(GakOf(x, y, g), GakOf(x, y, g)), tol)

Guard(e, n, m, cl) ==
  IF OpenS(e, n, m) THEN {}
  ELSE IF Refused(e.gc, n, m) THEN Failed(<< <<"infeasible-region-refused", e.err # "">> >>)
  ELSE IF e.err # "" THEN {"raised " \o e.err}
  ELSE Failed(cl)

JSoft(e) == Guard(e, Len(e.x), Len(e.y), << <<"soft-dtw-value", SfClose(e.z, ZOf(e.x, e.y, e.g, e.gc), e.tol)>> >>)
JSoftN(e) == IF e.gc.t = "ita" /\ (OpenS(e, Len(e.x), Len(e.x)) \/ OpenS(e, Len(e.y), Len(e.y))) THEN {}
             ELSE Guard(e, Len(e.x), Len(e.y), << <<"normalized-soft-dtw-value", NormOk(e.z, e.x, e.y, e.g, e.gc, e.tol)>> >>)
JSoft0(e) == Guard(e, Len(e.x), Len(e.y), << <<"gamma-0-is-squared-dtw", e.v = Dtw2Of(e.x, e.y, e.gc)>> >>)

\* alignment matrix in fixed point
Fix(Em) == [i \in 1..Len(Em) |-> [j \in 1..Len(Em[1]) |-> SfFix20(Em[i][j])]]
ExpE(x, y, g, gc) ==
  LET n == Len(x) m == Len(y) c == CostOf(x, y, g) r == RegionMatrix(gc, n, m)
      C(i, j) == c[i][j] Ok(i, j) == r[i][j]
  IN Fix(Expected(n, m, C, Ok))
MatNear(a, b, eps) == Len(a) = Len(b) /\ \A i \in 1..Len(a): Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(a[i]): Abs(a[i][j] - b[i][j]) <= eps
JAlign(e) == Guard(e, Len(e.x), Len(e.y),
  << <<"soft-dtw-value", SfClose(e.z, ZOf(e.x, e.y, e.g, e.gc), e.tol)>>,
     <<"alignment-is-path-share", MatNear(e.E, ExpE(e.x, e.y, e.g, e.gc), e.eps)>> >>)
\* gamma = 0: a 0/1 matrix marking one optimal path
JAlign0(e) ==
  LET n == Len(e.x) m == Len(e.y) c == CostOf(e.x, e.y, 1) r == Reg(e, n, m)
      on == {<<i, j>> \in (1..n) \X (1..m): e.E[i][j] = 1}
      shape == Len(e.E) = n /\ \A i \in 1..n: Len(e.E[i]) = m /\ \A j \in 1..m: e.E[i][j] \in {0, 1}
      \* cells of a path are ordered by i + j, then by i; consecutive ones differ by a step
      nxt(p) == {q \in on: <<q[1] - p[1], q[2] - p[2]>> \in Steps}
      prv(p) == {q \in on: <<p[1] - q[1], p[2] - q[2]>> \in Steps}
      s == SetToSeq(on)
  IN Guard(e, n, m,
       << <<"gamma-0-is-squared-dtw", e.v = Dtw2Of(e.x, e.y, e.gc)>>,
          <<"alignment-is-0-1", shape>>,
          <<"alignment-marks-a-path", shape => /\ <<1, 1>> \in on /\ <<n, m>> \in on
               /\ \A p \in on: r[p[1]][p[2]] /\ (p # <<n, m>> => nxt(p) # {}) /\ (p # <<1, 1>> => prv(p) # {})>>,
          <<"alignment-cost-is-value", shape => SumSeq([k \in 1..Len(s) |-> c[s[k][1]][s[k][2]]]) = e.v>> >>)

\* gradient of soft-DTW with respect to x: sum_j E_ij (x_i - y_j), k-th coordinate
GradX(x, y, E, w) == [i \in 1..Len(x) |-> [k \in 1..Len(x[1]) |-> w * Sum(Len(y), LAMBDA j: E[i][j] * (x[i][k] - y[j][k]))]]
GradY(x, y, E, w) == [j \in 1..Len(y) |-> [k \in 1..Len(y[1]) |-> w * Sum(Len(x), LAMBDA i: E[i][j] * (y[j][k] - x[i][k]))]]
GradSelf(x, E, w) == \* of S(x, x), both occurrences
  [i \in 1..Len(x) |-> [k \in 1..Len(x[1]) |-> w * Sum(Len(x), LAMBDA j: (E[i][j] + E[j][i]) * (x[i][k] - x[j][k]))]]
MatSub(a, b) == [i \in 1..Len(a) |-> [k \in 1..Len(a[1]) |-> a[i][k] - b[i][k] \div 2]]
JGrad(e) ==
  LET Em == ExpE(e.x, e.y, e.g, e.gc)
      gx == GradX(e.x, e.y, Em, e.w)
      gy == GradY(e.x, e.y, Em, e.w)
      \* normalised loss subtracts half of each self term
      nx == IF e.norm THEN MatSub(gx, GradSelf(e.x, ExpE(e.x, e.x, e.g, e.gc), e.w)) ELSE gx
      ny == IF e.norm THEN MatSub(gy, GradSelf(e.y, ExpE(e.y, e.y, e.g, e.gc), e.w)) ELSE gy
  IN Guard(e, Len(e.x), Len(e.y),
       << <<"value", IF e.norm THEN NormOk(e.z, e.x, e.y, e.g, e.gc, e.tol) ELSE SfClose(e.z, ZOf(e.x, e.y, e.g, e.gc), e.tol)>>,
          <<"gradient-x", e.hx => MatNear(e.gx, nx, e.eps)>>,
          <<"gradient-y", e.hy => MatNear(e.gy, ny, e.eps)>> >>)
\* E times jacobian of the squared Euclidean distance
JJac(e) == IF e.err # "" THEN {"raised " \o e.err}
  ELSE Failed(<< <<"distance-matrix", e.D = CostOf(e.x, e.y, 1)>>, <<"jacobian-product", e.G = GradX(e.x, e.y, e.E, 2)>> >>)

JUgak(e) == IF e.err # "" THEN {"raised " \o e.err} ELSE Failed(<< <<"unnormalized-gak-value", SfClose(e.z, GakOf(e.x, e.y, e.g), e.tol)>> >>)
JGak(e) == IF e.err # "" THEN {"raised " \o e.err} ELSE Failed(<< <<"gak-value", GakNormOk(e.z, e.x, e.y, e.g, e.tol)>>, <<"gak-at-most-1", SfLeq(e.z, SfOne, 20)>> >>)
\* sigma_gak over a sample that contains every observed point once
JSigma(e) ==
  LET d == SortSeq([k \in 1..Len(e.pairs) |-> SqD(e.pts[e.pairs[k][1]], e.pts[e.pairs[k][2]])], LAMBDA a, b: a < b)
  IN IF e.err # "" THEN {"raised " \o e.err}
     ELSE Failed(<< <<"sigma-is-median", e.s2 = d[(Len(d) + 1) \div 2] * e.sz>>, <<"gamma-is-2-sigma-squared", e.g2 = 2 * e.s2>>, <<"zero-sigma-refused", e.z0 = "ZeroDivisionError">> >>)

(* pairwise matrices: A and B are lists of series; entry (i,j) compares A[i] with B[j] *)
JCd(e) ==
  LET B == IF e.slf THEN e.A ELSE e.B
      N == Len(e.A) Mn == Len(B)
      refused == e.gc.t = "ita" /\ \E i \in 1..N, j \in 1..Mn: Refused(e.gc, Len(e.A[i]), Len(B[j]))
      open == e.gc.t = "ita" /\ ((\E i \in 1..N, j \in 1..Mn: ItaTie(Len(e.A[i]), Len(B[j]), e.gc.a, e.gc.b)) \/
                 (e.meas = "softn" /\ ((\E i \in 1..N: ItaTie(Len(e.A[i]), Len(e.A[i]), e.gc.a, e.gc.b) \/ Refused(e.gc, Len(e.A[i]), Len(e.A[i]))) \/
                                       (\E i \in 1..Mn: ItaTie(Len(B[i]), Len(B[i]), e.gc.a, e.gc.b) \/ Refused(e.gc, Len(B[i]), Len(B[i]))))))
      \* with the series alone, only pairs i <= j are defined by a direct comparison (asymmetric regions do not exist except itakura)
      Pair(i, j) == IF e.slf /\ i > j THEN <<j, i>> ELSE <<i, j>>
      Entry(i, j) == LET p == Pair(i, j) a == e.A[p[1]] b == B[p[2]] v == e.M[i][j] IN
        CASE e.meas = "dtw" -> v = Dtw2Of(a, b, e.gc)
          [] e.meas = "fre" -> v = FreOf(a, b, e.gc)
          [] e.meas = "soft" -> SfClose(v, ZOf(a, b, e.g, e.gc), e.tol)
          [] e.meas = "softn" -> NormOk(v, a, b, e.g, e.gc, e.tol)
          [] e.meas = "soft0" -> v = Dtw2Of(a, b, e.gc)
          [] e.meas = "gak" -> GakNormOk(v, a, b, e.g, e.tol)
          [] OTHER -> NumEq(v, e.P[p[1]][p[2]], 20, -9)
      shape == Len(e.M) = N /\ \A i \in 1..N: Len(e.M[i]) = Mn
  IN IF open THEN {}
     ELSE IF refused THEN Failed(<< <<"infeasible-region-refused", e.err # "">> >>)
     ELSE IF e.err # "" THEN {"raised " \o e.err}
     ELSE Failed(<< <<"shape", shape>>, <<"entries-are-pairwise-values", shape => \A i \in 1..N, j \in 1..Mn: Entry(i, j)>>,
                    <<"symmetric", shape /\ e.slf => \A i \in 1..N, j \in 1..Mn: e.M[i][j] = e.M[j][i]>>,
                    <<"inputs-unmodified", ~e.mod>> >>)

(* backend parity: the NumPy and the PyTorch result of the same call *)
RECURSIVE NumTreeEq(_, _, _, _)
NumTreeEq(a, b, depth, tol) == IF depth = 0 THEN NumEq(a, b, tol, -9)
                               ELSE Len(a) = Len(b) /\ \A k \in 1..Len(a): NumTreeEq(a[k], b[k], depth - 1, tol)
JPar(e) == IF e.errn # e.errt THEN {"one backend raised: " \o e.errn \o "/" \o e.errt}
           ELSE IF e.errn # "" THEN {}
           ELSE Failed(<< <<"same-value", NumTreeEq(e.vn, e.vt, e.depth, e.tol)>>,
                          <<"numpy-result-type", e.tn = "numpy">>, <<"pytorch-result-type", e.typed => e.tt = "torch">>,
                          <<"same-shape", e.shn = e.sht>> >>)

(* backend selection: the first argument that names, is, or holds a backend decides; NumPy otherwise *)
Kind(a) == IF a \in {"str:numpy", "ndarray", "ndarray0", "be:numpy"} THEN "numpy"
           ELSE IF a \in {"str:pytorch", "str:torch", "tensor", "be:pytorch"} THEN "pytorch" ELSE ""
JSel(e) == LET ks == SelectSeq([k \in 1..Len(e.args) |-> Kind(e.args[k])], LAMBDA s: s # "") IN
  IF e.err # "" THEN {"raised " \o e.err}
  ELSE Failed(<< <<"selected-backend", e.got = (IF ks = <<>> THEN "numpy" ELSE ks[1])>>, <<"instance-returned", e.same>> >>)

(* canonical time warping: costs of the projected series in 10^-4 units *)
JCtw(e) ==
  LET n == e.n m == e.m reg == RegionMatrix(e.gc, n, m)
      C(i, j) == e.D[i][j] Ok(i, j) == reg[i][j] g == PathInGrid(e.p, n, m)
  IN IF e.gc.t = "ita" /\ ItaTie(n, m, e.gc.a, e.gc.b) THEN {}
     ELSE IF Refused(e.gc, n, m) THEN Failed(<< <<"infeasible-region-refused", e.err # "">> >>)
     ELSE IF e.err # "" THEN {"raised " \o e.err}
     ELSE Failed(<< <<"path-in-grid", g>>, <<"path-ends", g => PathEnds(e.p, n, m)>>, <<"path-steps", g => PathMoves(e.p)>>,
                    <<"path-in-region", g => PathRegion(e.p, Ok)>>,
                    <<"path-optimal-after-projection", g /\ PathRegion(e.p, Ok) => Abs(PathSum(e.p, C) - Dtw(n, m, C, Ok)) <= 2 * (n + m)>>,
                    <<"score-is-path-cost", e.score => Abs(e.s2 - Dtw(n, m, C, Ok)) <= 2 * (n + m)>>,
                    <<"ctw-is-score-of-path", e.same>> >>)

Judge(e) ==
  CASE e.k = "soft" -> JSoft(e)
    [] e.k = "softn" -> JSoftN(e)
    [] e.k = "soft0" -> JSoft0(e)
    [] e.k = "align" -> JAlign(e)
    [] e.k = "align0" -> JAlign0(e)
    [] e.k = "grad" -> JGrad(e)
    [] e.k = "jac" -> JJac(e)
    [] e.k = "ugak" -> JUgak(e)
    [] e.k = "gak" -> JGak(e)
    [] e.k = "sigma" -> JSigma(e)
    [] e.k = "cd" -> JCd(e)
    [] e.k = "par" -> JPar(e)
    [] e.k = "sel" -> JSel(e)
    [] e.k = "ctw" -> JCtw(e)
    [] OTHER -> {"unknown event"}
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(Trace[l], Judge(Trace[l]))
Spec == Init /\ [][Next]_l
====
