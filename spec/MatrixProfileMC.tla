---- MODULE MatrixProfileMC ----
(* Every series over a small alphabet, growing point by point: laws of the matrix profile. *)
EXTENDS MatrixProfile
CONSTANTS V, N, M
VARIABLES x, m
Init == x = <<>> /\ m \in 1..M
Next == Len(x) < N /\ \E v \in 0..V: x' = Append(x, v) /\ UNCHANGED m
Spec == Init /\ [][Next]_<<x, m>>
Raw == Profile(x, m, RawD)
Zn == Profile(x, m, ZD)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) - i + 1]]
Prefix == SubSeq(x, 1, Len(x) - 1)
\* reading the series backwards reverses its profile; a longer series never raises it
Reversal == Profile(Rev(x), m, RawD) = Rev(Raw) /\ Profile(Rev(x), m, ZD) = Rev(Zn)
Grows == Len(x) > 0 => \A i \in 1..Count0(Prefix, m): Raw[i] <= Profile(Prefix, m, RawD)[i]
\* the best motif comes as a pair
Pair == \A P \in {Raw, Zn}: P # <<>> => LET b == MinSeq(P) IN b < INF => \E i, j \in 1..Len(P): i # j /\ P[i] = b /\ P[j] = b /\ Far(i, j, m)
\* standardised distances ignore offset and positive scale
Affine == Profile([i \in 1..Len(x) |-> 3 * x[i] + 5], m, ZD) = Zn
Bounds == \A i \in 1..Len(Zn): Zn[i] = INF \/ (Zn[i] >= 0 /\ Zn[i] <= 4 * m * Z + 1)
\* no subsequence matches itself or an overlap by more than m - Excl(m)
Short == Count0(x, m) <= Excl(m) + 1 => \A i \in 1..Len(Raw): Raw[i] = INF
SqrtOk == \A a \in {0, 1, 2, 99, 100, 65535, 1073741823}: ISqrt(a) * ISqrt(a) <= a /\ (ISqrt(a) = 32767 \/ (ISqrt(a) + 1) * (ISqrt(a) + 1) > a)
====
