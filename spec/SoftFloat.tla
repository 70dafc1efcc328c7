---- MODULE SoftFloat ----
(* Positive binary floating point numbers for TLC's 32-bit integers: <<m, e>> = m * 2^e with 2^28 <= m < 2^29, or <<0, 0>>.
   Operations truncate; the relative error of one operation is below 2^-24. *)
EXTENDS Core
SfZero == <<0, 0>>
SfOne == <<Pow2(28), -28>>
IsSf(a) == a = SfZero \/ (a[1] >= Pow2(28) /\ a[1] < Pow2(29))
RECURSIVE SfNorm(_, _)
SfNorm(m, e) == IF m = 0 THEN SfZero
                ELSE IF m >= Pow2(29) THEN SfNorm(m \div 2, e + 1)
                ELSE IF m < Pow2(21) THEN SfNorm(m * 128, e - 7)
                ELSE IF m < Pow2(28) THEN SfNorm(m * 2, e - 1)
                ELSE <<m, e>>
SfInt(k) == SfNorm(k, 0)
SfScale(a, k) == IF a[1] = 0 THEN a ELSE <<a[1], a[2] + k>>
SfAdd(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
               ELSE LET d == a[2] - b[2] IN
                    IF d >= 29 THEN a ELSE IF d <= -29 THEN b
                    ELSE IF d >= 0 THEN SfNorm(a[1] + b[1] \div Pow2(d), a[2])
                    ELSE SfNorm(b[1] + a[1] \div Pow2(-d), b[2])
SfAdd3(a, b, c) == SfAdd(a, SfAdd(b, c))
SfMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN SfZero
               ELSE LET ah == a[1] \div 32768 al == a[1] % 32768
                        bh == b[1] \div 32768 bl == b[1] % 32768
                    IN SfNorm(ah * bh * 4 + (ah * bl + al * bh) \div 8192, a[2] + b[2] + 28)
\* long division: 29 quotient bits
SfDiv(a, b) == IF a[1] = 0 THEN SfZero
               ELSE LET st == FoldLeft(LAMBDA s, k:
                                LET q == s[1] * 2 r == s[2] * 2
                                IN IF r >= b[1] THEN <<q + 1, r - b[1]>> ELSE <<q, r>>,
                              IF a[1] >= b[1] THEN <<1, a[1] - b[1]>> ELSE <<0, a[1]>>, Idx(28))
                    IN SfNorm(st[1], a[2] - b[2] - 28)
SfSum(s) == FoldLeft(SfAdd, SfZero, s)
\* |a - b| <= 2^-k max(a, b)
SfClose(a, b, k) == IF ~IsSf(a) \/ ~IsSf(b) THEN FALSE
                    ELSE IF a[1] = 0 \/ b[1] = 0 THEN a = b
                    ELSE LET d == a[2] - b[2] IN
                         IF d = 0 THEN Abs(a[1] - b[1]) <= Max2(a[1], b[1]) \div Pow2(k)
                         ELSE IF d = 1 THEN Abs(a[1] - b[1] \div 2) <= a[1] \div Pow2(k)
                         ELSE IF d = -1 THEN Abs(b[1] - a[1] \div 2) <= b[1] \div Pow2(k)
                         ELSE FALSE
\* a <= b (1 + 2^-k)
SfLeq(a, b, k) == a[1] = 0 \/ SfClose(a, b, k) \/ (b[1] # 0 /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[1] <= b[1])))
\* fixed point with 20 fractional bits, of a number below 2^10
SfFix20(a) == IF a[1] = 0 THEN 0
              ELSE LET s == a[2] + 20 IN IF s >= 0 THEN (IF s > 1 THEN INF ELSE a[1] * Pow2(s)) ELSE IF s <= -30 THEN 0 ELSE a[1] \div Pow2(-s)
====
