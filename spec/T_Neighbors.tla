---- MODULE T_Neighbors ----
(* Trace validation of the nearest-neighbour estimators. *)
EXTENDS Neighbors, Elastic, TraceIO
VARIABLE l
Guard(e, cl) == IF e.err # "" THEN {"raised " \o e.err} ELSE Failed(cl \o << <<"input-modified", ~e.mod>>, <<"params-modified", ~e.pmod>> >>)
CityS(a, b) == Sum(Len(a), LAMBDA t: CityD(a[t], b[t]))
EucS2(a, b) == Sum(Len(a), LAMBDA t: SqD(a[t], b[t]))
\* distances between integer series: squares for "dtw", "frechet" and "euclidean"
Dist(e, a, b) ==
  LET Ok(i, j) == Admissible(e.gc, Len(a), Len(b), i, j) IN
  CASE e.metric = "dtw" -> Dtw(Len(a), Len(b), LAMBDA i, j: SqD(a[i], b[j]), Ok)
    [] e.metric = "frechet" -> Fre(Len(a), Len(b), LAMBDA i, j: SqD(a[i], b[j]), Ok)
    [] e.metric = "cityblock" -> CityS(a, b)
    [] OTHER -> EucS2(a, b)
\* e.D: distances when the measure is real-valued (specified elsewhere); e.selfq: each indexed series is a query
Distances(e) == IF e.lib THEN e.D ELSE [i \in 1..Len(e.B) |-> [j \in 1..Len(e.A) |-> Dist(e, e.B[i], e.A[j])]]
JKnn(e) ==
  LET D == Distances(e) IN
  Guard(e, << <<"rows", Len(e.ind) = Len(D)>>,
    <<"neighbors", Len(e.ind) = Len(D) => \A i \in 1..Len(D): IsNearest(D[i], e.ind[i], e.kk, IF e.selfq THEN {i} ELSE {}, e.eps)>>,
    <<"distances", Len(e.dist) = Len(e.ind) /\ \A i \in 1..Len(e.ind): Len(e.dist[i]) = Len(e.ind[i]) /\
        \A t \in 1..Len(e.ind[i]): e.ind[i][t] \in 1..Len(D[i]) => Abs(e.dist[i][t] - D[i][e.ind[i][t]]) <= e.eps>>,
    <<"indices-alone", e.alone = e.ind>> >>)
\* e.ind: neighbours the estimator itself reports for the queries, e.dist: their distances times e.unit
W(e, i) == IF e.weights = "uniform" THEN Unit(e.ind[i]) ELSE InvWeights(e.dist[i], 1000000000)
JVote(e) ==
  LET V == [i \in 1..Len(e.ind) |-> [c \in 1..e.C |-> Votes(e.y, e.ind[i], W(e, i), c)]] IN
  Guard(e, << <<"rows", Len(e.pred) = Len(e.ind) /\ Len(e.proba) = Len(e.ind)>>,
    <<"label", \A i \in 1..Len(e.pred): IF e.weights = "uniform" THEN e.pred[i] = Winner(e.y, e.ind[i], e.C)
                ELSE e.pred[i] \in 1..e.C /\ \A c \in 1..e.C: V[i][c] <= V[i][e.pred[i]] + 20>>,
    <<"share", \A i \in 1..Len(e.proba): Len(e.proba[i]) = e.C /\ \A c \in 1..e.C:
                Abs(e.proba[i][c] * Total(W(e, i)) - 1000 * V[i][c]) <= (IF e.weights = "uniform" THEN 1 ELSE 3) * Total(W(e, i))>>,
    <<"classes", e.clsok>> >>)
JMean(e) ==
  Guard(e, << <<"rows", Len(e.pred) = Len(e.ind)>>,
    <<"value", \A i \in 1..Len(e.pred): LET w == W(e, i) IN
       Abs(e.pred[i] * Total(w) - Sum(Len(w), LAMBDA t: 100 * w[t] * e.y[e.ind[i][t]])) <= (IF e.weights = "uniform" THEN 1 ELSE 2) * Total(w)>> >>)
JFails(e) == Failed(<< <<"accepted", e.err # "">>, <<"hang", e.err # "Hang">>, <<"params-modified", ~e.pmod>>, <<"input-modified", ~e.mod>> >>)
Judge(e) ==
  CASE e.k = "knn" -> JKnn(e)
    [] e.k = "vote" -> JVote(e)
    [] e.k = "mean" -> JMean(e)
    [] e.k = "fails" -> JFails(e)
    [] OTHER -> {"unknown event"}
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(Trace[l], Judge(Trace[l]))
Spec == Init /\ [][Next]_l
====
