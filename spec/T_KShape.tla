---- MODULE T_KShape ----
(* Trace validation of the cross-correlation functions and of KShape. *)
EXTENDS KShape, TraceIO
VARIABLE l
Guard(e, cl) == IF e.err # "" THEN {"raised " \o e.err} ELSE Failed(cl \o << <<"input-modified", ~e.mod>> >>)
Near(v, j, s) == \A k \in 1..Len(v): v[j] <= v[k] + s
Close(a, b, s) == Len(a) = Len(b) /\ \A i \in 1..Len(a): Abs(a[i] - b[i]) <= s
Close2(a, b, s) == Len(a) = Len(b) /\ \A i \in 1..Len(a): Close(a[i], b[i], s)
\* F2: signed squares of the normalised cross-correlations times the squared norms
JCc(e) == Guard(e, << <<"cross-correlation", e.F2 = [i \in 1..Len(e.X) |-> [j \in 1..Len(e.Y) |-> Ncc2(e.X[i], e.Y[j])]]>> >>)
JShift(e) == Guard(e, << <<"shifted", Len(e.out) = Len(e.X) /\ \A i \in 1..Len(e.X): \E s \in BestShifts(e.r, e.X[i]): e.out[i] = Delay(e.X[i], s)>> >>)

\* x is at least as similar to centre a as to centre b (integers)
AtLeast(x, a, b) == LET p == Ncc2(x, a) q == Ncc2(x, b) na == Norm2(a) nb == Norm2(b) IN
  IF p >= 0 /\ q <= 0 THEN TRUE ELSE IF p < 0 /\ q >= 0 THEN FALSE ELSE p * nb >= q * na
KsLabelings(A, C) == {lab \in [1..Len(A) -> 1..Len(C)] : \A i \in 1..Len(A): \A j \in 1..Len(C): AtLeast(A[i], C[lab[i]], C[j])}
Coord(y, k) == [t \in 1..Len(y) |-> y[t][k]]
UnitOk(c, S) == Abs(SumSeq(c)) <= 2 * Len(c) /\ LET q == [t \in 1..Len(c) |-> c[t] \div 10] IN Abs(Dot(q, q) - Len(c) * Sq(S \div 10)) <= Len(c) * S
EigenOk(Y, c, S) ==
  LET cq == [t \in 1..Len(c) |-> c[t] \div (S \div 100)] nc == Dot(cq, cq) lam == Quad(Y, cq) \div (nc \div 100) w == Apply(Y, cq)
  IN \A t \in 1..Len(c): Abs(w[t] * 100 - lam * cq[t]) <= 8 * lam + 1000
\* not against all the members it is made of
SignOk(Y, c, S) == LET dots == [i \in 1..Len(Y) |-> Dot(Y[i], c)] IN ~(\A i \in 1..Len(Y): dots[i] < -(S \div 50))
CentreOk(e, j, M) ==
  LET al == [i \in 1..Len(M) |-> Delay(M[i], CHOOSE s \in BestShifts(e.C0[j], M[i]): TRUE)] IN
  \A k \in 1..e.d: LET Y == [i \in 1..Len(M) |-> Coord(al[i], k)] c == Coord(e.C1[j], k) IN
    IF \A i \in 1..Len(Y): \A t \in 1..Len(Y[1]): CentreOf(Y[i])[t] = 0 THEN TRUE
    ELSE UnitOk(c, e.S) /\ Dominant(Y, c, e.S, 4) /\ EigenOk(Y, c, e.S) /\ SignOk(Y, c, e.S)
JStep(e) ==
  LET L0 == {lab \in KsLabelings(e.A, e.C0) : NoEmpty(lab, Len(e.C0))}
      \* similarity to the returned centres, all of the same norm
      R == [i \in 1..Len(e.A) |-> [j \in 1..Len(e.C1) |-> -MaxCC(e.A[i], e.C1[j])]]
  IN Guard(e, << <<"centre", L0 # {} => \E lab \in L0: \A j \in 1..Len(e.C0): CentreOk(e, j, Pick(e.A, Members(lab, j)))>>,
                 <<"labels", e.eqn => \A i \in 1..Len(e.A): Near(R[i], e.lab[i], 40)>>,
                 <<"iterations", e.iter = 1>> >>)
\* chain of single updates; a step that makes the inertia worse, or hardly better, is undone and ends the run
\* costs[k]: inertia after k steps
KsEnd(c, k, tol, s) == k >= 2 /\ c[k - 1] - c[k] < tol + s
KsMust(c, k, tol, s) == k >= 2 /\ (c[k - 1] - c[k] + s < 0 \/ Abs(c[k - 1] - c[k]) + s < tol)
JKsRun(e) ==
  Guard(e, << <<"stops-at-another-iterate",
     \E k \in 1..e.maxit: /\ \A j \in 1..(k - 1): ~KsMust(e.costs, j, e.tol, 3)
                          /\ e.iter = k
                          /\ \/ KsEnd(e.costs, k, e.tol, 3) /\ Close2(e.out, e.chain[k - 1], 5) /\ Abs(e.inert - e.costs[k - 1]) <= 3
                             \/ k = e.maxit /\ ~KsMust(e.costs, k, e.tol, 3) /\ Close2(e.out, e.chain[k], 5) /\ Abs(e.inert - e.costs[k]) <= 3>> >>)
JKmBest(e) == Guard(e, << <<"worse-than-fewer-attempts", e.best <= e.one + 3>> >>)
\* a fitted model against the cross-correlation function: R0, R are 1 - similarity of the fitted and of the scaled new series to the centres
JKsFit(e) ==
  Guard(e, << <<"labels", \A i \in 1..Len(e.lab): e.lab[i] \in 1..e.kk /\ Near(e.R0[i], e.lab[i], 3)>>,
    <<"empty-cluster", NoEmpty(e.lab, e.kk)>>,
    <<"inertia", Abs(e.inert * Len(e.lab) - Sum(Len(e.lab), LAMBDA i: e.S0[i])) <= 5 * Len(e.lab)>>,
    <<"predict", Len(e.pred) = Len(e.R) /\ \A i \in 1..Len(e.R): e.pred[i] \in 1..e.kk /\ Near(e.R[i], e.pred[i], 3)>>,
    <<"predict-alone", e.alone = e.pred>>,
    <<"centres-not-scaled", \A j \in 1..e.kk: \A k \in 1..Len(e.mu[j]): e.mu[j][k] = 0 /\ e.sd[j][k] \in {0, 1000000}>>,
    <<"fit-predict", e.fp = e.lab>>, <<"params-modified", ~e.pmod>>, <<"iterations", e.iter \in 1..e.maxit>> >>)
Judge(e) ==
  CASE e.k = "cc" -> JCc(e)
    [] e.k = "shift" -> JShift(e)
    [] e.k = "step" -> JStep(e)
    [] e.k = "ksrun" -> JKsRun(e)
    [] e.k = "ksfit" -> JKsFit(e)
    [] e.k = "kmbest" -> JKmBest(e)
    [] OTHER -> {"unknown event"}
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(Trace[l], Judge(Trace[l]))
Spec == Init /\ [][Next]_l
====
