---- MODULE T_Early ----
(* Trace validation of NonMyopicEarlyClassifier. Streams are histories: the specification keeps what each stream has been sent. *)
EXTENDS Early, TraceIO
VARIABLES l, sent
Guard(e, cl) == IF e.err # "" THEN {"raised " \o e.err} ELSE Failed(cl \o << <<"input-modified", ~e.mod>> >>)
Count(n, P(_)) == Sum(n, LAMBDA i: IF P(i) THEN 1 ELSE 0)
Rate(p, q) == IF q = 0 THEN 0 ELSE (p * ONE + q \div 2) \div q
Near(a, b, s) == Abs(a - b) <= s
(* fit: lab, y: cluster and class of each training series; held-out part hc, hy and its predictions hp[t] by the classifier of each time *)
JFit(e) ==
  LET N == Len(e.y) M == Len(e.hy) IN
  Guard(e, << <<"class-shares", \A c \in 1..e.C: \A k \in 1..e.kk:
       Near(e.share[c][k], Rate(Count(N, LAMBDA i: e.y[i] = c /\ e.lab[i] = k), Count(N, LAMBDA i: e.lab[i] = k)), 2)>>,
     <<"times", e.times = [i \in 1..(e.T - e.t0 + 1) |-> e.t0 + i - 1] /\ Len(e.conf) = e.T - e.t0 + 1>>,
     <<"error-rates", \A t \in 1..Len(e.conf): \A k \in 1..e.kk: \A c \in 1..e.C: \A b \in 1..e.C:
       Near(e.conf[t][k][c][b], IF b = c THEN 0 ELSE Rate(Count(M, LAMBDA i: e.hc[i] = k /\ e.hy[i] = c /\ e.hp[t][i] = b), Count(M, LAMBDA i: e.hc[i] = k /\ e.hy[i] = c)), 2)>>,
     <<"classes", e.clsok>>, <<"params-modified", ~e.pmod>> >>)
(* membership probabilities; x[k]: lambda (1 - d_k / mean d) over 2^12 *)
JProba(e) ==
  LET s == [k \in 1..Len(e.x) |-> Logistic(e.x[k])] tot == SumSeq(s) IN
  Guard(e, << <<"membership", Len(e.p) = Len(e.x) /\ \A k \in 1..Len(e.p): Abs(e.p[k] * (tot \div 10) - (s[k] * (ONE \div 10))) <= (tot \div 10) * 60>>,
              <<"sum", Abs(SumSeq(e.p) - ONE) <= Len(e.p)>> >>)
Err(e) == [t \in e.t0..e.T |-> [k \in 1..e.kk |-> [c \in 1..e.C |-> SumSeq(e.conf[t - e.t0 + 1][k][c])]]]
(* decisions on complete series. P[i][t]: membership probabilities of the prefixes; lab[i][t]: class given by the classifier of time t *)
JBatch(e) ==
  LET err == Err(e) n == Len(e.P) IN
  Guard(e, << <<"rows", Len(e.pred) = n /\ Len(e.time) = n /\ Len(e.ptime) = n>>,
     <<"decision-time", \A i \in 1..Len(e.time): DecidedAt(err, e.share, e.P[i], e.ct, e.t0, e.time[i], e.T, 10)>>,
     <<"decision", \A i \in 1..Len(e.pred): e.time[i] \in e.t0..e.T => e.pred[i] = e.lab[i][e.time[i]]>>,
     <<"probability", e.ptime = e.time /\ \A i \in 1..Len(e.proba): e.time[i] \in e.t0..e.T => e.proba[i] = e.labp[i][e.time[i]]>>,
     <<"anticipates", e.time2 = e.time /\ e.pred2 = e.pred>>,
     <<"predict", e.pr = e.pred>>,
     <<"cost", Near(e.cost, ONE - Rate(Count(n, LAMBDA i: e.pred[i] = e.truth[i]), n) + (e.ct * SumSeq(e.time)) \div n, 5)>> >>)
(* a prefix of t timestamps of each series: class (0: none yet) and delay (-1: none yet) *)
PrefixOk(e, pred, delay) ==
  LET err == Err(e) IN \A i \in 1..Len(e.P):
    IF e.t < e.t0 THEN pred[i] = 0 /\ delay[i] = -1
    ELSE pred[i] = e.lab[i] /\ delay[i] \in Delays(err, e.share, e.P[i], e.ct, e.t, e.T, 10)
JPrefix(e) == Guard(e, << <<"rows", Len(e.pred) = Len(e.P) /\ Len(e.delay) = Len(e.P)>>, <<"prefix-decision", PrefixOk(e, e.pred, e.delay)>> >>)
(* streams *)
JOpen(e) == IF e.err # "" THEN {"raised " \o e.err} ELSE {}
Extend(e) == IF e.what = "chunk" THEN [i \in 1..Len(e.chunk) |-> sent[e.g][i] \o e.chunk[i]] ELSE sent[e.g]
\* more timestamps than the training series are refused; malformed chunks are ignored (with a warning)
JSend(e) ==
  LET now == Extend(e) IN
  IF e.what = "chunk" /\ Len(now[1]) > e.T THEN Failed(<< <<"too-long-accepted", e.err = "ValueError">> >>)
  ELSE IF e.err # "" THEN {"raised " \o e.err}
  ELSE Failed(<< <<"stream-data", e.data = now>>, <<"malformed-chunk-not-reported", e.what = "bad" <=> e.warned>>,
       <<"stream-differs-from-batch", e.out = e.batch>>, <<"input-modified", ~e.mod>> >>)
Judge(e) ==
  CASE e.k = "fit" -> JFit(e)
    [] e.k = "proba" -> JProba(e)
    [] e.k = "batch" -> JBatch(e)
    [] e.k = "prefix" -> JPrefix(e)
    [] e.k = "open" -> JOpen(e)
    [] e.k = "send" -> JSend(e)
    [] OTHER -> {"unknown event"}
Init == l = 1 /\ sent = <<>>
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ Report(Trace[l], Judge(Trace[l]))
        /\ sent' = LET e == Trace[l] IN
             CASE e.k = "open" -> [g \in DOMAIN sent \union {e.g} |-> IF g = e.g THEN [i \in 1..e.n |-> <<>>] ELSE sent[g]]
               [] e.k = "send" -> [sent EXCEPT ![e.g] = Extend(e)]
               [] OTHER -> sent
Spec == Init /\ [][Next]_<<l, sent>>
====
