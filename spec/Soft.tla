---- MODULE Soft ----
(* Measures that sum over all admissible warping paths: soft-DTW (value, alignment, gradient) and the global alignment kernel.
   Costs are integers in units of gamma*ln 2 (resp. 2 sigma^2 ln 2), so a path of cost c weighs 2^-c. *)
EXTENDS Elastic, SoftFloat

\* Z = sum over admissible paths of 2^-cost; soft-DTW = -gamma ln Z.  Grid of Z for all prefixes.
ZGrid(n, m, C(_, _), Ok(_, _)) ==
  Grid(n, m, SfZero, LAMBDA i, j, dg, up, lf:
     IF ~Ok(i, j) THEN SfZero
     ELSE IF i = 1 /\ j = 1 THEN SfScale(SfOne, -C(1, 1))
     ELSE SfScale(SfAdd3(dg, up, lf), -C(i, j)))
\* the same for suffixes: reverse both series
RevGrid(n, m, g) == [i \in 1..n |-> [j \in 1..m |-> g[n + 1 - i][m + 1 - j]]]
ZBack(n, m, C(_, _), Ok(_, _)) ==
  LET Cr(i, j) == C(n + 1 - i, m + 1 - j) Okr(i, j) == Ok(n + 1 - i, m + 1 - j) IN
  RevGrid(n, m, ZGrid(n, m, Cr, Okr))
\* expected alignment: the share of the weight carried by the paths through each cell
Expected(n, m, C(_, _), Ok(_, _)) ==
  LET f == ZGrid(n, m, C, Ok) b == ZBack(n, m, C, Ok) z == f[n][m] IN
  [i \in 1..n |-> [j \in 1..m |->
     IF ~Ok(i, j) \/ z[1] = 0 THEN SfZero ELSE SfDiv(SfScale(SfMul(f[i][j], b[i][j]), C(i, j)), z)]]

\* global alignment kernel: every cell contributes 1 / (2^(c+1) - 1)
GakLocal(c) == IF c >= 27 THEN SfScale(SfOne, -(c + 1)) ELSE SfDiv(SfOne, SfInt(Pow2(c + 1) - 1))
GakGrid(n, m, C(_, _)) ==
  Grid(n, m, SfZero, LAMBDA i, j, dg, up, lf:
     IF i = 1 /\ j = 1 THEN GakLocal(C(1, 1)) ELSE SfMul(SfAdd3(dg, up, lf), GakLocal(C(i, j))))
Gak(n, m, C(_, _)) == GakGrid(n, m, C)[n][m]
====
