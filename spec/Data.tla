---- MODULE Data ----
(* The canonical representation of time series and datasets, and its conversions.
   A point is a sequence of coordinates; NANN is a missing coordinate. A series is a sequence of points. *)
EXTENDS Core

Missing(p) == \A k \in 1..Len(p): p[k] = NANN
\* length without the trailing all-missing points
Size(x) == CHOOSE s \in 0..Len(x): (s = 0 \/ ~Missing(x[s])) /\ \A k \in (s + 1)..Len(x): Missing(x[k])
Strip(x) == SubSeq(x, 1, Size(x))
MaxSize(A) == FoldLeft(LAMBDA a, s: Max2(a, Size(s)), 0, A)
NanPoint(d) == [k \in 1..d |-> NANN]
PadTo(x, n, d) == [k \in 1..n |-> IF k <= Len(x) THEN x[k] ELSE NanPoint(d)]
\* the (n, max length, d) array of a dataset
Format(A, d) == [i \in 1..Len(A) |-> PadTo(Strip(A[i]), MaxSize(A), d)]
EqualSize(A) == Len(A) = 0 \/ \A i \in 1..Len(A): Size(A[i]) = Size(A[1])

\* conversions
Flat(x) == FoldLeft(LAMBDA a, p: a \o p, <<>>, x)
Transposed(x, d) == [k \in 1..d |-> [t \in 1..Len(x) |-> x[t][k]]]
ToSklearn(A, d) == [i \in 1..Len(A) |-> Flat(Format(A, d)[i])]
ToPyts(A, d) == [i \in 1..Len(A) |-> IF d = 1 THEN Flat(Format(A, d)[i]) ELSE Transposed(Format(A, d)[i], d)]
FromPyts(P, d) == [i \in 1..Len(P) |-> IF d = 1 THEN [t \in 1..Len(P[i]) |-> <<P[i][t]>>] ELSE [t \in 1..Len(P[i][1]) |-> [k \in 1..d |-> P[i][k][t]]]]
ToSeglearn(A) == [i \in 1..Len(A) |-> Strip(A[i])]
ToStumpy(A, d) == [i \in 1..Len(A) |-> IF d = 1 THEN Flat(Strip(A[i])) ELSE Transposed(Strip(A[i]), d)]
\* one column per dimension, one cell (a series) per time series
ToSktime(A, d) == [k \in 1..d |-> [i \in 1..Len(A) |-> Transposed(Strip(A[i]), d)[k]]]
ToPyflux(x, d) == Transposed(x, d)
\* one row <<id, time, values...>> per time stamp
ToTsfresh(A) == FoldLeft(LAMBDA a, i: a \o [t \in 1..Size(A[i]) |-> <<i - 1, t - 1>> \o A[i][t]], <<>>, Idx(Len(A)))
FromTsfresh(R, n) == [i \in 1..n |-> LET rows == SelectSeq(R, LAMBDA r: r[1] = i - 1) IN [t \in 1..Len(rows) |-> SubSeq(rows[t], 3, Len(rows[t]))]]
====
