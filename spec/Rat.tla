---- MODULE Rat ----
(* Rational numbers <<p, q>> in lowest terms with q > 0; QNan marks a missing value. *)
EXTENDS Core
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Q(p, q) == LET s == IF q < 0 THEN -1 ELSE 1 g == Gcd(Abs(p), Abs(q)) IN <<(s * p) \div g, (s * q) \div g>>
QInt(p) == <<p, 1>>
QNan == <<NANN, 1>>
IsNan(a) == a[1] = NANN
QAdd(a, b) == LET g == Gcd(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
QNeg(a) == <<-a[1], a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) == LET x == Q(a[1], b[2]) y == Q(b[1], a[2]) IN Q(x[1] * y[1], x[2] * y[2])
QDiv(a, b) == QMul(a, IF b[1] < 0 THEN <<-b[2], -b[1]>> ELSE <<b[2], b[1]>>)
QLe(a, b) == a[1] * b[2] <= b[1] * a[2]
QLt(a, b) == a[1] * b[2] < b[1] * a[2]
QMin(a, b) == IF QLe(a, b) THEN a ELSE b
QMax(a, b) == IF QLe(a, b) THEN b ELSE a
QSumSeq(s) == FoldLeft(QAdd, <<0, 1>>, s)
QSign(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
QAbs(a) == <<Abs(a[1]), a[2]>>
====
