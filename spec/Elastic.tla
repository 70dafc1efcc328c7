---- MODULE Elastic ----
(* Elastic alignment of two series: the constraint regions, warping paths, and the measures defined as an
   optimum over all admissible paths (DTW, Frechet, LCSS, subsequence DTW, length-limited DTW).
   Grid coordinates are 1-based here, 0-based in recorded paths. *)
EXTENDS Core

(* ---- constraint regions ---- *)
\* Sakoe-Chiba band of radius r, widened by the length difference on the side of the longer series
SakoeOk(n, m, r, i, j) ==
  IF n <= m THEN j >= i - r /\ j <= i + (m - n) + r
  ELSE i >= j - r /\ i <= j + (n - m) + r

\* Itakura parallelogram of maximal slope a/b (>= 1), slopes rescaled by n/m. For column j the rows i with Lo(j) <= i <= Hi(j),
\* the bounds being rounded to hundredths before being rounded inwards to integers. All values over the denominator a*b*m.
ItaDen(m, a, b) == a * b * m
ItaLo(n, m, a, b, j) == \* numerator, j 1-based
  Max2(b * b * n * (j - 1), (n - 1) * ItaDen(m, a, b) - a * a * n * (m - j))
ItaHi(n, m, a, b, j) ==
  Min2(a * a * n * (j - 1), (n - 1) * ItaDen(m, a, b) - b * b * n * (m - j))
\* ceil(round(p/q, 2)) and floor(round(p/q, 2))
CeilHundredth(p, q) == IF (p % q) * 200 < q THEN p \div q ELSE (p \div q) + 1
FloorHundredth(p, q) == IF (p % q) * 200 > 199 * q THEN (p \div q) + 1 ELSE p \div q
\* p/q falls on a rounding tie (x.005 or x.995): the specification leaves that cell open
TieHundredth(p, q) == (p % q) * 200 = q \/ (p % q) * 200 = 199 * q
ItaOk(n, m, a, b, i, j) ==
  LET q == ItaDen(m, a, b) IN
  /\ (i - 1) >= CeilHundredth(ItaLo(n, m, a, b, j), q)
  /\ (i - 1) <= FloorHundredth(ItaHi(n, m, a, b, j), q)
ItaTie(n, m, a, b) == \E j \in 1..m: LET q == ItaDen(m, a, b) IN
                        TieHundredth(ItaLo(n, m, a, b, j), q) \/ TieHundredth(ItaHi(n, m, a, b, j), q)

(* A constraint is a record [t, r, a, b]: t in {"none","sak","ita"}. *)
Admissible(gc, n, m, i, j) ==
  CASE gc.t = "sak" -> SakoeOk(n, m, gc.r, i, j)
    [] gc.t = "ita" -> ItaOk(n, m, gc.a, gc.b, i, j)
    [] OTHER -> TRUE
RegionMatrix(gc, n, m) == [i \in 1..n |-> [j \in 1..m |-> Admissible(gc, n, m, i, j)]]
\* an Itakura region with an empty row or column is refused
RegionEmptyLine(gc, n, m) ==
  \/ \E i \in 1..n: \A j \in 1..m: ~Admissible(gc, n, m, i, j)
  \/ \E j \in 1..m: \A i \in 1..n: ~Admissible(gc, n, m, i, j)
Refused(gc, n, m) == gc.t = "ita" /\ RegionEmptyLine(gc, n, m)

(* ---- warping paths ---- *)
Steps == {<<1, 0>>, <<0, 1>>, <<1, 1>>}
StepOk(p, q) == <<q[1] - p[1], q[2] - p[2]>> \in Steps
InGrid(p, n, m) == p[1] \in 0..(n-1) /\ p[2] \in 0..(m-1)
PathInGrid(path, n, m) == Len(path) > 0 /\ \A k \in 1..Len(path): Len(path[k]) = 2 /\ InGrid(path[k], n, m)
PathEnds(path, n, m) == path[1] = <<0, 0>> /\ path[Len(path)] = <<n - 1, m - 1>>
PathMoves(path) == \A k \in 1..(Len(path) - 1): StepOk(path[k], path[k+1])
PathRegion(path, Ok(_, _)) == \A k \in 1..Len(path): Ok(path[k][1] + 1, path[k][2] + 1)
PathSum(path, C(_, _)) == Sum(Len(path), LAMBDA k: C(path[k][1] + 1, path[k][2] + 1))
PathMax(path, C(_, _)) == FoldLeft(LAMBDA a, k: Max2(a, C(path[k][1] + 1, path[k][2] + 1)), 0, Idx(Len(path)))

(* ---- optimal values by dynamic programming ---- *)
DtwGrid(n, m, C(_, _), Ok(_, _)) ==
  Grid(n, m, INF, LAMBDA i, j, dg, up, lf:
     IF ~Ok(i, j) THEN INF
     ELSE IF i = 1 /\ j = 1 THEN C(1, 1)
     ELSE LET b == Min3(dg, up, lf) IN IF b >= INF THEN INF ELSE b + C(i, j))
Dtw(n, m, C(_, _), Ok(_, _)) == DtwGrid(n, m, C, Ok)[n][m]

FreGrid(n, m, C(_, _), Ok(_, _)) ==
  Grid(n, m, INF, LAMBDA i, j, dg, up, lf:
     IF ~Ok(i, j) THEN INF
     ELSE IF i = 1 /\ j = 1 THEN C(1, 1)
     ELSE LET b == Min3(dg, up, lf) IN IF b >= INF THEN INF ELSE Max2(b, C(i, j)))
Fre(n, m, C(_, _), Ok(_, _)) == FreGrid(n, m, C, Ok)[n][m]

\* longest chain of admissible matches, strictly increasing in both series
LcssGrid(n, m, Match(_, _), Ok(_, _)) ==
  Grid(n, m, 0, LAMBDA i, j, dg, up, lf:
     IF Ok(i, j) /\ Match(i, j) THEN 1 + dg ELSE Max2(up, lf))
Lcss(n, m, Match(_, _), Ok(_, _)) == LcssGrid(n, m, Match, Ok)[n][m]
ChainOk(path, n, m, Match(_, _), Ok(_, _)) ==
  /\ \A k \in 1..Len(path): Len(path[k]) = 2 /\ InGrid(path[k], n, m)
  /\ \A k \in 1..Len(path): Ok(path[k][1] + 1, path[k][2] + 1) /\ Match(path[k][1] + 1, path[k][2] + 1)
  /\ \A k \in 1..(Len(path) - 1): path[k+1][1] > path[k][1] /\ path[k+1][2] > path[k][2]

\* subsequence DTW: the path may start at any column of the first row and end at any column of the last row
SubGrid(n, m, C(_, _)) ==
  Grid(n, m, INF, LAMBDA i, j, dg, up, lf:
     IF i = 1 THEN C(1, j) ELSE C(i, j) + Min3(dg, up, lf))
SubDtw(n, m, C(_, _)) == MinSeq(SubGrid(n, m, C)[n])

\* DTW over paths of at most L pairs: per cell, the best cost for each exact path length 1..L
LimGrid(n, m, L, C(_, _)) ==
  LET none == [s \in 1..L |-> INF] IN
  Grid(n, m, none, LAMBDA i, j, dg, up, lf:
     [s \in 1..L |-> IF i = 1 /\ j = 1 THEN (IF s = 1 THEN C(1, 1) ELSE INF)
                     ELSE IF s = 1 THEN INF
                     ELSE LET b == Min3(dg[s-1], up[s-1], lf[s-1]) IN IF b >= INF THEN INF ELSE b + C(i, j)])
LimDtw(n, m, L, C(_, _)) == MinSeq(LimGrid(n, m, L, C)[n][m])

(* ---- envelopes ---- *)
EnvLo(s, r, i) == MinSeq(SubSeq(s, Max2(1, i - r), Min2(Len(s), i + r)))
EnvHi(s, r, i) == MaxSeq(SubSeq(s, Max2(1, i - r), Min2(Len(s), i + r)))
LbKeogh2(q, lo, hi) == Sum(Len(q), LAMBDA i: IF q[i] > hi[i] THEN Sq(q[i] - hi[i]) ELSE IF q[i] < lo[i] THEN Sq(lo[i] - q[i]) ELSE 0)
====
