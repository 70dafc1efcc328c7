---- MODULE TransformMC ----
(* Laws of the transformations, checked exhaustively on short univariate sequences and small datasets. *)
EXTENDS Transform
CONSTANTS Vals, MaxSz
VARIABLES s, n
Init == s \in UNION {[1..k -> Vals \cup {NANN}] : k \in 1..MaxSz} /\ n \in 1..4
Next == UNCHANGED <<s, n>>
Spec == Init /\ [][Next]_<<s, n>>
O == Present(s)
Methods == {"mean", "median", "ffill", "bfill", "linear", "constant"}
Im(m) == [t \in 1..Len(s) |-> ImputeAt(s, t, m, <<1, 2>>)]
\* min-max is onto the range, order preserving, attained
MinMaxLaw == Len(O) > 0 /\ MaxSeq(O) > MinSeq(O) =>
  LET y == [t \in 1..Len(O) |-> MinMaxVal(O[t], O, QInt(-1), QInt(3), QInt(1))] IN
  /\ \A t \in 1..Len(O): QLe(QInt(-1), y[t]) /\ QLe(y[t], QInt(3))
  /\ \E t \in 1..Len(O): y[t] = QInt(-1)
  /\ \E t \in 1..Len(O): y[t] = QInt(3)
  /\ \A t, u \in 1..Len(O): O[t] < O[u] => QLt(y[t], y[u])
\* standardised values have mean 0 and variance 1
ZLaw == Len(O) > 0 => LET q == QSumSeq([t \in 1..Len(O) |-> ZSq(O[t], O, QInt(1))]) IN
  /\ q = QInt(Len(O)) \/ (q = QInt(0) /\ MaxSeq(O) = MinSeq(O))
ResampleLaw == NANN \notin {s[t] : t \in 1..Len(s)} /\ n > 1 =>
  LET r == Resample(s, n) IN
  /\ r[1] = QInt(s[1]) /\ r[n] = QInt(s[Len(s)])
  /\ \A t \in 1..n: QLe(QInt(MinSeq(s)), r[t]) /\ QLe(r[t], QInt(MaxSeq(s)))
  /\ n = Len(s) => r = [t \in 1..n |-> QInt(s[t])]
ImputeLaw == \A m \in Methods: LET y == Im(m) IN
  /\ \A t \in 1..Len(s): s[t] # NANN => y[t] = QInt(s[t])
  /\ Len(O) > 0 /\ m \in {"mean", "median", "linear", "constant"} => \A t \in 1..Len(s): ~IsNan(y[t])
  /\ m # "constant" => \A t \in 1..Len(s): IsNan(y[t]) \/ (QLe(QInt(MinSeq(O)), y[t]) /\ QLe(y[t], QInt(MaxSeq(O))))
\* backward filling is forward filling of the reversed series
FillLaw == LET r == Reverse(s) IN \A t \in 1..Len(s): ImputeAt(s, t, "bfill", QNan) = ImputeAt(r, Len(s) + 1 - t, "ffill", QNan)
====
