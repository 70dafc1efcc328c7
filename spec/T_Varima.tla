---- MODULE T_Varima ----
(* Trace validation of VARIMA and AutoVARIMA. Coefficients over SC, values over VS unless said otherwise. *)
EXTENDS Varima, TraceIO
VARIABLE l
SC == 8192
VS == 512
Guard(e, cl) == IF e.err # "" THEN {"raised " \o e.err} ELSE Failed(cl \o << <<"input-modified", ~e.mod>>, <<"params-modified", ~e.pmod>> >>)
CloseP(a, b, s) == Len(a) = Len(b) /\ \A t \in 1..Len(a): Len(a[t]) = Len(b[t]) /\ \A o \in 1..Len(a[t]): Abs(a[t][o] - b[t][o]) <= s
(* every training series obeys the recurrence exactly: forecasts continue it (out over 16) *)
Times(f, v) == [t \in 1..Len(v) |-> [o \in 1..Len(v[t]) |-> f * v[t][o]]]
Obeys(e, x) == LET w == DiffN(SDiff(x, e.S), e.d) r == Errors(w, e.c, e.AR, <<>>, 1, 1, Len(x[1])) IN \A t \in 1..Len(r): \A o \in 1..Len(r[t]): r[t][o] = 0
Slack(v) == 2 + MaxSeq([t \in 1..Len(v) |-> MaxSeq([o \in 1..Len(v[t]) |-> Abs(v[t][o])])]) \div 4096
JContinue(e) ==
  LET F(x) == Times(16, Forecast(x, e.c, e.AR, <<>>, e.d, e.S, e.n, 1, 1)) IN
  Guard(e, << <<"driver-recurrence", \A i \in 1..Len(e.A): Obeys(e, e.A[i])>>,
     <<"continuation", Len(e.out) = Len(e.A) /\ \A i \in 1..Len(e.A): LET f == F(e.A[i]) IN CloseP(e.out[i], f, Slack(f))>>,
     <<"continuation-of-new-series", Len(e.outb) = Len(e.B) /\ \A i \in 1..Len(e.B): LET f == F(e.B[i]) IN CloseP(e.outb[i], f, Slack(f))>> >>)
(* least squares: residuals are orthogonal to the regressors (single series), several series average *)
Coef(e, j, o) == \* row j of the stacked coefficients: intercept, then lag by lag
  IF e.const THEN (IF j = 1 THEN e.c[o] ELSE e.AR[((j - 2) \div e.D) + 1][((j - 2) % e.D) + 1][o]) ELSE e.AR[((j - 1) \div e.D) + 1][((j - 1) % e.D) + 1][o]
Reg(e, w, t, j) == LET m == IF e.const THEN j - 1 ELSE j IN IF m = 0 THEN 1 ELSE w[t - 1 - ((m - 1) \div e.D)][((m - 1) % e.D) + 1]
JOls(e) ==
  LET w == DiffN(SDiff(e.x, e.S), e.d) p == Len(e.AR) R == p * e.D + (IF e.const THEN 1 ELSE 0) T == (p + 1)..Len(w) IN
  Guard(e, << <<"orthogonal", \A o \in 1..e.D: \A j \in 1..R:
       LET z(t) == Reg(e, w, t, j)
           g(t) == w[t][o] * SC - Sum(R, LAMBDA q: Reg(e, w, t, q) * Coef(e, q, o))
           b(t) == 1 + Sum(R, LAMBDA q: Abs(Reg(e, w, t, q)))
       IN Abs(Sum(Len(w), LAMBDA t: IF t \in T THEN z(t) * g(t) ELSE 0)) <= Sum(Len(w), LAMBDA t: IF t \in T THEN Abs(z(t)) * b(t) ELSE 0)>> >>)
JMean(e) == Guard(e, << <<"mean-of-fits", Len(e.each[1]) = Len(e.coef) /\ \A j \in 1..Len(e.coef): Abs(SumSeq([i \in 1..Len(e.each) |-> e.each[i][j]]) - Len(e.each) * e.coef[j]) <= Len(e.each) + 1>> >>)
(* forecasts of a fitted model; X: training series, Y: other series, both integers; outputs over VS *)
Up(x) == Times(VS, x)
Sse(e, c, AR, MA) == \* over VS^2 / 4
  Sum(Len(e.X), LAMBDA i: LET r == Errors(DiffN(SDiff(Up(e.X[i]), e.S), e.d), c, AR, MA, SC, VS, e.D) IN Sum(Len(r), LAMBDA t: Sum(e.D, LAMBDA o: Sq(r[t][o] \div 2))))
Valid(e) == Sum(Len(e.X), LAMBDA i: Len(e.X[i]) - e.d - e.S)
Dof(e) == Valid(e) - Len(e.X) * Max2(Len(e.AR), Len(e.MA))
Tol(e, n) == LET T == MaxSeq([i \in 1..Len(e.X) |-> Len(e.X[i])]) b == ErrBound(T + n, e.B, e.MA, SC, e.D) IN b * Pow2(e.d) * (n + 1) * (IF Len(e.AR) > 0 THEN 1 + (Norm(e.AR, e.D) \div SC) * n ELSE 1) * 2 + 4
JForecast(e) ==
  LET F(x) == Forecast(Up(x), e.c, e.AR, e.MA, e.d, e.S, e.n, SC, VS) s == Sse(e, e.c, e.AR, e.MA) IN
  Guard(e, << <<"forecast", \A i \in 1..Len(e.X): CloseP(e.out[i], F(e.X[i]), Tol(e, e.n))>>,
     <<"forecast-of-new-series", \A i \in 1..Len(e.Y): CloseP(e.outy[i], F(e.Y[i]), Tol(e, e.n))>>,
     <<"predict-of-training-series", \A i \in 1..Len(e.X): CloseP(e.outx[i], e.out[i], 1)>>,
     <<"first-steps", \A i \in 1..Len(e.X): CloseP(e.out1[i], <<e.out[i][1]>>, 1)>>,
     \* variance over VS^2 / 4 implied by the log-likelihood
     <<"likelihood", e.nolik \/ Abs(e.var - s \div Dof(e)) <= 60 + (s \div Dof(e)) \div 20>>,
     <<"worse-than-start", e.nostart \/ s <= (LET t == Sse(e, e.c0, e.AR0, e.MA0) IN t + t \div 20 + 2000)>>,
     <<"shapes", e.shp>>, <<"refit", e.refit>> >>)
(* automatic selection: rows of tried orders <<p, q, constant, criterion>>; st[d+1]: stationary after d differences *)
FirstD(e) == LET ok == {k \in 0..e.maxd : e.st[k + 1]} IN IF ok = {} THEN e.dflt ELSE CHOOSE k \in ok: \A j \in ok: k <= j
JAuto(e) ==
  Guard(e, << <<"differencing-order", e.d = FirstD(e)>>, <<"order-bounds", e.p \in 0..e.maxp /\ e.q \in 0..e.maxq>>,
     <<"neighbor-better", \A k \in 1..Len(e.nb): e.crit <= e.nb[k][4] + 10>>,
     <<"start-better", \A k \in 1..Len(e.start): e.crit <= e.start[k] + 10>>,
     <<"seasonal", e.seas>>, <<"forecast", e.fc>>, <<"attributes", e.attr>> >>)
JRefused(e) == Failed(<< <<"accepted", e.err = e.want>> >>)
Judge(e) ==
  CASE e.k = "continue" -> JContinue(e)
    [] e.k = "ols" -> JOls(e)
    [] e.k = "mean" -> JMean(e)
    [] e.k = "forecast" -> JForecast(e)
    [] e.k = "auto" -> JAuto(e)
    [] e.k = "refused" -> JRefused(e)
    [] OTHER -> {"unknown event"}
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(Trace[l], Judge(Trace[l]))
Spec == Init /\ [][Next]_l
====
