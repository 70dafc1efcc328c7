---- MODULE Varima ----
(* VARIMA(p, d, q) with naive seasonal differencing. A series is a sequence of points (sequences of features).
   Coefficients are integers over SC, values integers over some scale of their own; c is over SC and multiplied by the value scale VS.
   AR[k][i][o]: influence of feature i, k steps ago, on feature o; MA likewise for past errors. *)
EXTENDS Core
Minus(u, v) == [k \in 1..Len(u) |-> u[k] - v[k]]
Plus(u, v) == [k \in 1..Len(u) |-> u[k] + v[k]]
Lag(x, s) == [t \in 1..(Len(x) - s) |-> Minus(x[t + s], x[t])]
SDiff(x, S) == IF S = 0 THEN x ELSE Lag(x, S)
RECURSIVE DiffN(_, _)
DiffN(x, d) == IF d = 0 THEN x ELSE DiffN(Lag(x, 1), d - 1)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
\* the value that follows x when its d-th difference there is w
Undiff(x, d, w) == [o \in 1..Len(w) |-> w[o] - Sum(d, LAMBDA k: (IF k % 2 = 1 THEN -1 ELSE 1) * Binom(d, k) * x[Len(x) + 1 - k][o])]
Unseason(x, S, v) == IF S = 0 THEN v ELSE Plus(v, x[Len(x) + 1 - S])
\* the prediction for the point after position t of w, errors e known up to t
Pred(w, e, t, c, AR, MA, SC, VS, D) ==
  [o \in 1..D |-> (IF c = <<>> THEN 0 ELSE (c[o] * VS) \div SC)
     + Sum(Len(AR), LAMBDA k: Sum(D, LAMBDA i: (w[t + 1 - k][i] * AR[k][i][o]) \div SC))
     + Sum(Len(MA), LAMBDA k: IF t + 1 - k < 1 THEN 0 ELSE Sum(D, LAMBDA i: (e[t + 1 - k][i] * MA[k][i][o]) \div SC))]
Zero(D) == [o \in 1..D |-> 0]
\* one-step errors; the first max(p, q) points carry none
Errors(w, c, AR, MA, SC, VS, D) ==
  LET s == Max2(Len(AR), Len(MA)) IN
  FoldLeft(LAMBDA e, t: Append(e, IF t <= s THEN Zero(D) ELSE Minus(w[t], Pred(w, e, t - 1, c, AR, MA, SC, VS, D))), <<>>, Idx(Len(w)))
\* n further points of x; future errors are 0
Forecast(x, c, AR, MA, d, S, n, SC, VS) ==
  LET D == Len(x[1]) w0 == DiffN(SDiff(x, S), d) e0 == Errors(w0, c, AR, MA, SC, VS, D) IN
  LET st == FoldLeft(LAMBDA a, k:
        LET w == Pred(a.w, a.e, Len(a.w), c, AR, MA, SC, VS, D)
            v == Unseason(a.x, S, Undiff(a.s, d, w))
        IN [x |-> Append(a.x, v), s |-> Append(a.s, Undiff(a.s, d, w)), w |-> Append(a.w, w), e |-> Append(a.e, Zero(D))],
      [x |-> x, s |-> SDiff(x, S), w |-> w0, e |-> e0], Idx(n))
  IN SubSeq(st.x, Len(x) + 1, Len(x) + n)
\* bound of the rounding errors of Errors (integer divisions), then of Forecast: B per step, amplified by the moving average
Norm(K, D) == Sum(Len(K), LAMBDA k: MaxSeq([o \in 1..D |-> Sum(D, LAMBDA i: Abs(K[k][i][o]))]))
ErrBound(T, B, MA, SC, D) == FoldLeft(LAMBDA b, t: Append(b, IF b = <<>> THEN B ELSE Min2(1000000, B + (MaxSeq(b) * Min2(2000, (Norm(MA, D) * 100) \div SC)) \div 100)), <<>>, Idx(T))[T]
====
