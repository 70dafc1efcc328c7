---- MODULE Core ----
(* Shared vocabulary of the tslearn specification: series, points, sums, folds over alignment grids. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

INF == 2000000000      \* +infinity (unreachable, infeasible)
BADN == -1999999999    \* the implementation returned something that is no number of the expected kind
NANN == -1999999998

Idx(n) == [k \in 1..n |-> k]
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Min3(a, b, c) == Min2(Min2(a, b), c)
Abs(a) == IF a < 0 THEN -a ELSE a
Sq(a) == a * a
SumSeq(s) == FoldLeft(LAMBDA a, b: a + b, 0, s)
MinSeq(s) == FoldLeft(LAMBDA a, b: Min2(a, b), s[1], s)
MaxSeq(s) == FoldLeft(LAMBDA a, b: Max2(a, b), s[1], s)
\* sum over k in 1..n of F(k)
Sum(n, F(_)) == FoldLeft(LAMBDA a, k: a + F(k), 0, Idx(n))
Pow2(k) == 2^k

\* squared Euclidean / Manhattan / Chebyshev distance of two points
SqD(u, v) == Sum(Len(u), LAMBDA k: Sq(u[k] - v[k]))
CityD(u, v) == Sum(Len(u), LAMBDA k: Abs(u[k] - v[k]))
ChebD(u, v) == FoldLeft(LAMBDA a, k: Max2(a, Abs(u[k] - v[k])), 0, Idx(Len(u)))

(* Row-by-row evaluation over an n x m alignment grid.  Cell(i,j,diag,up,left) gives the value at (i,j)
   from its three predecessors; predecessors outside the grid are `out`. Result: sequence of rows. *)
Grid(n, m, out, Cell(_, _, _, _, _)) ==
  LET edge == [j \in 1..m |-> out]
      Row(prev, i) == FoldLeft(LAMBDA row, j:
                         Append(row, Cell(i, j, IF j = 1 THEN out ELSE prev[j-1], prev[j], IF j = 1 THEN out ELSE row[j-1])),
                         <<>>, Idx(m))
  IN FoldLeft(LAMBDA rows, i: Append(rows, Row(IF i = 1 THEN edge ELSE rows[i-1], i)), <<>>, Idx(n))

\* decimal numbers <<m, e>> with 8 significant digits (m = 0 only for zero); e = 9999 tags NaN (1), +inf (2), -inf (-2)
NumSpecial(a) == a[2] = 9999
NumAlign(a, b) == IF a[2] = b[2] THEN <<a[1], b[1], a[2]>>
                  ELSE IF a[2] = b[2] + 1 THEN <<a[1] * 10, b[1], b[2]>>
                  ELSE IF b[2] = a[2] + 1 THEN <<a[1], b[1] * 10, a[2]>>
                  ELSE <<0, INF, 0>>
\* equal up to `tol` units of the 8th digit of the larger, or both below `zero` (exponent-wise) in magnitude
NumTiny(a, ze) == a[1] = 0 \/ (~NumSpecial(a) /\ a[2] + 7 < ze)
NumEq(a, b, tol, ze) ==
  IF NumSpecial(a) \/ NumSpecial(b) THEN a = b
  ELSE IF NumTiny(a, ze) /\ NumTiny(b, ze) THEN TRUE
  ELSE IF NumTiny(a, ze) \/ NumTiny(b, ze) THEN NumTiny(a, ze + 1) /\ NumTiny(b, ze + 1)
  ELSE LET c == NumAlign(a, b) IN c[2] # INF /\ Abs(c[1] - c[2]) <= tol * (IF a[2] = b[2] THEN 1 ELSE 10)
\* a <= b (up to tol units); finite numbers only
NumSign(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
NumLeq(a, b, tol, ze) ==
  \/ NumEq(a, b, tol, ze)
  \/ NumSpecial(b) /\ b[1] = 2
  \/ NumSpecial(a) /\ a[1] = -2
  \/ /\ ~NumSpecial(a) /\ ~NumSpecial(b)
     /\ IF NumSign(a) # NumSign(b) THEN NumSign(a) < NumSign(b)
        ELSE IF a[2] = b[2] THEN a[1] <= b[1]
        ELSE (a[2] < b[2]) = (NumSign(a) > 0)
NumSeqEq(s, t, tol, ze) == Len(s) = Len(t) /\ \A k \in 1..Len(s): NumEq(s[k], t[k], tol, ze)
NumMatEq(s, t, tol, ze) == Len(s) = Len(t) /\ \A k \in 1..Len(s): NumSeqEq(s[k], t[k], tol, ze)

\* set of the names of the clauses that do not hold: every trace verdict is total and names what failed
Failed(cs) == {cs[k][1] : k \in {k \in 1..Len(cs) : ~cs[k][2]}}
====
