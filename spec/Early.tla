---- MODULE Early ----
(* Non-myopic early classification. Probabilities and costs are integers over ONE.
   err[t][k][c]: probability that the classifier of time t errs on class c within cluster k; share[c][k]: share of class c in cluster k. *)
EXTENDS Core
ONE == 10000
\* expected cost, at time t, of deciding at time u >= t; p: membership probabilities of the prefix seen at t
Cost(err, share, p, ct, u) ==
  (Sum(Len(p), LAMBDA k: p[k] * (Sum(Len(share), LAMBDA c: share[c][k] * err[u][k][c]) \div ONE)) \div ONE) + ct * u
\* delays that minimise it (slack s)
Delays(err, share, p, ct, t, T, s) ==
  LET cost == [u \in t..T |-> Cost(err, share, p, ct, u)] IN {u - t : u \in {u \in t..T : \A v \in t..T: cost[u] <= cost[v] + s}}
\* a decision may, must be taken at time t
MayStop(err, share, p, ct, t, T, s) == t = T \/ 0 \in Delays(err, share, p, ct, t, T, s)
MustStop(err, share, p, ct, t, T, s) == t = T \/ Delays(err, share, p, ct, t, T, s) = {0}
\* decision time t of a series whose prefixes have membership probabilities P[u], u from t0
DecidedAt(err, share, P, ct, t0, t, T, s) ==
  /\ t \in t0..T /\ MayStop(err, share, P[t], ct, t, T, s)
  /\ \A u \in t0..(t - 1): ~MustStop(err, share, P[u], ct, u, T, s)
\* logistic function, argument and value over 2^12 and ONE: exp(-|x|) by squaring (1 - |x|/64 + ...) six times, over 2^15
Half(e) == (e * e) \div 32768
ExpNeg(x) == \* x >= 0 over 2^12
  IF x > 40960 THEN 0 ELSE
  LET z == (x * 8) \div 64 IN \* x/64 over 2^15
  LET b == 32768 - z + ((z * z) \div 65536) - ((((z * z) \div 65536) * z) \div 98304) IN Half(Half(Half(Half(Half(Half(b))))))
Logistic(x) == LET e == ExpNeg(Abs(x)) IN IF x >= 0 THEN (ONE * 32768) \div (32768 + e) ELSE (ONE * e) \div (32768 + e)
====
