---- MODULE Walk ----
(* Random walk generators (tslearn.generators).  A source of randomness is a position <<seed, draws>>: its seed and the sequence of the
   calls that have drawn from it.  Values are integers in units of 1/U. *)
EXTENDS Core
U == 65536
Fresh(s) == <<s, <<>>>>
Drawn(pos, call) == <<pos[1], Append(pos[2], call)>>
\* steps of one feature of a walk that starts from 0
Steps(X, j) == [t \in 1..Len(X) |-> X[t][j] - (IF t = 1 THEN 0 ELSE X[t - 1][j])]
\* noise-free blobs: members follow the walk of their blob
Member(i, per) == ((i - 1) \div per) + 1
Labels(per, blobs) == [i \in 1..(per * blobs) |-> Member(i, per) - 1]
\* moments of N supposedly independent standard normal numbers (in hundredths): six standard deviations
Near0(s, n, unit) == Sq(s \div unit) <= 36 * n
MeanOk(z) == Near0(SumSeq(z), Len(z), 100)
VarOk(z) == Abs(FoldLeft(LAMBDA a, x: a + Sq(x), 0, z) \div 10000 - Len(z)) <= 2 + 6 * (CHOOSE r \in 0..200: r * r <= 2 * Len(z) /\ (r + 1) * (r + 1) > 2 * Len(z))
\* no correlation at lag k
LagOk(z, k) == Near0(FoldLeft(LAMBDA a, i: a + (z[i] * z[i + k]) \div 100, 0, Idx(Len(z) - k)), Len(z) - k, 100)
\* 68.27 % within one standard deviation
ShareOk(z) == LET c == Cardinality({i \in 1..Len(z) : Abs(z[i]) <= 100}) IN Sq(c * 1000 - 683 * Len(z)) \div 1000 <= 36 * 217 * Len(z) + 5000 * Len(z)
====
