---- MODULE T_Svm ----
(* Trace validation of TimeSeriesSVC and TimeSeriesSVR. *)
EXTENDS Svm, TraceIO
VARIABLE l
Guard(e, cl) == IF e.err # "" THEN {"raised " \o e.err} ELSE Failed(cl \o << <<"input-modified", ~e.mod>>, <<"params-modified", ~e.pmod>> >>)
Dot2(a, b) == Sum(Len(a), LAMBDA t: Sum(Len(a[t]), LAMBDA k: a[t][k] * b[t][k]))
\* linear kernel: computed from the integer series (times 1/16 when the unit is a quarter)
Lin(e, A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B) |-> (Dot2(A[i], B[j]) * e.KS) \div e.q]]
Kernel(e) == IF e.lin THEN Lin(e, e.A, e.A) ELSE e.K
KernelQ(e) == IF e.lin THEN Lin(e, e.B, e.A) ELSE e.Kq
CloseS(a, b, s) == Len(a) = Len(b) /\ \A i \in 1..Len(a): Abs(a[i] - b[i]) <= s
Fs(e, R) == [i \in 1..Len(R) |-> Decision(R[i], e.a, e.b, e.KS, e.AS)]
Common(e) == LET K == Kernel(e) Kq == KernelQ(e) IN
  << <<"balance", Balanced(e.a)>>,
     <<"decision-of-training-series", CloseS(Fs(e, K), e.f, e.slack)>>,
     <<"decision", CloseS(Fs(e, Kq), e.fq, e.slack)>>,
     <<"decision-alone", CloseS(e.alone, e.fq, 5)>>,
     <<"support-vectors", e.sv>>, <<"gamma", e.gam>> >>
JSvc(e) == Guard(e, Common(e) \o <<
     <<"not-optimal", SvcOptimal(e.y, e.a, e.cap, e.f, e.KS, e.AS, e.slack)>>,
     <<"label", \A i \in 1..Len(e.fq): (e.fq[i] > 5 => e.pred[i] = 2) /\ (e.fq[i] < -5 => e.pred[i] = 1) /\ e.pred[i] \in {1, 2}>>,
     <<"probability", e.proba>> >>)
JSvr(e) == Guard(e, Common(e) \o << <<"not-optimal", SvrOptimal(e.y, e.a, e.cap, e.eps, e.f, e.AS, e.slack)>> >>)
\* several classes: each pair decides as the machine trained on that pair alone
JOvo(e) == Guard(e, <<
     <<"pair", \A p \in 1..Len(e.P): \A i \in 1..e.C: \A j \in (i + 1)..e.C: Abs(e.P[p][i][j] - e.Q[p][i][j]) <= e.slack>>,
     <<"vote", \A p \in 1..Len(e.P): e.tie[p] \/ e.pred[p] = OvoWinner(e.P[p], e.C)>>,
     <<"support-vectors", e.sv>>, <<"classes", e.clsok>> >>)
Judge(e) ==
  CASE e.k = "svc" -> JSvc(e)
    [] e.k = "svr" -> JSvr(e)
    [] e.k = "ovo" -> JOvo(e)
    [] OTHER -> {"unknown event"}
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(Trace[l], Judge(Trace[l]))
Spec == Init /\ [][Next]_l
====
