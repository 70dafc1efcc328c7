---- MODULE T_Bary ----
(* Trace validation of the barycenters. Series and starting points are integers (unit e.u), results reduced fractions. *)
EXTENDS Bary, TraceIO
VARIABLE l
Guard(e, cl) == IF e.err # "" THEN {"raised " \o e.err} ELSE Failed(cl \o << <<"input-modified", ~e.mod>> >>)
\* constraint region of barycenter row p and series row q, in either orientation (the Itakura region is not symmetric)
OkA(e, p, q, m) == Admissible(e.gc, Len(e.b), m, p, q)
OkB(e, p, q, m) == Admissible(e.gc, m, Len(e.b), q, p)
SameOk(e) == \A i \in 1..Len(e.A): \A p \in 1..Len(e.b): \A q \in 1..Size(e.A[i]): OkA(e, p, q, Size(e.A[i])) = OkB(e, p, q, Size(e.A[i]))
JEucl(e) == Guard(e, << <<"weighted-mean", e.out = EuclBary(e.A, e.w, e.d)>> >>)
JStart(e) == Guard(e, << <<"starting-point", e.out = DbaStart(e.A, e.d, e.m)>> >>)
JSoftStart(e) == Guard(e, << <<"starting-point", e.out = SoftStart(e.A, e.w, e.d)>> >>)
JSame(e) == Guard(e, << <<"not-the-initial-barycenter", e.out = [i \in 1..Len(e.b) |-> [k \in 1..e.d |-> QInt(e.b[i][k])]]>> >>)
JStep(e) ==
  Guard(e, << <<"averaging-step",
     \/ e.out \in DbaSteps(e.b, e.A, e.w, LAMBDA p, q, m: OkA(e, p, q, m))
     \/ ~SameOk(e) /\ e.out \in DbaSteps(e.b, e.A, e.w, LAMBDA p, q, m: OkB(e, p, q, m))>> >>)
\* one epoch of subgradient steps over one or two series (in either order), constant step size
JSub(e) ==
  LET rw(i) == Q(e.w[i] * Len(e.A), SumSeq(e.w)) eta == Q(e.eta[1], e.eta[2])
      first(i) == SubSteps(e.b, Strip(e.A[i]), eta, rw(i), LAMBDA p, q, m: OkA(e, p, q, m))
      Lcm(b) == FoldLeft(LAMBDA a, r: FoldLeft(LAMBDA c, v: (c * v[2]) \div Gcd(c, v[2]), a, r), 1, b)
      \* the second step in units of 1 / u
      second(b, i) == LET u == Lcm(b) x == Strip(e.A[i]) IN
        {[r \in 1..Len(c) |-> [k \in 1..e.d |-> QDiv(c[r][k], QInt(u))]] :
           c \in SubSteps([r \in 1..Len(b) |-> [k \in 1..e.d |-> b[r][k][1] * (u \div b[r][k][2])]],
                          [t \in 1..Len(x) |-> [k \in 1..e.d |-> u * x[t][k]]], eta, rw(i), LAMBDA p, q, m: OkA(e, p, q, m))}
  IN Guard(e, << <<"subgradient-step",
        IF Len(e.A) = 1 THEN e.out \in first(1)
        ELSE \/ \E b \in first(1): e.out \in second(b, 2)
             \/ \E b \in first(2): e.out \in second(b, 1)>> >>)
Close(a, b, s) == Len(a) = Len(b) /\ \A i \in 1..Len(a): Len(a[i]) = Len(b[i]) /\ \A k \in 1..Len(a[i]): Abs(a[i][k] - b[i][k]) <= s
JRun(e) ==
  Guard(e, << <<"stops-at-another-iterate", \E k \in StopsAt(e.costs, e.maxit, e.tol, 3): Close(e.out, e.chain[k + 1], 5)>>,
              <<"cost-increases", \A k \in 1..(Len(e.costs) - 1): e.costs[k + 1] <= e.costs[k] + 3>> >>)
\* soft-DTW barycenter: objective (fixed point) at the start, at the result and at two-sided perturbations of the result
JSoft(e) ==
  Guard(e, << <<"shape", e.shape = e.want>>,
              <<"worse-than-start", e.res <= e.start + 20>>,
              <<"not-stationary", e.full => \A i \in 1..Len(e.up): Abs(e.up[i] - e.down[i]) <= e.thr>> >>)
JAgree(e) == Guard(e, << <<"parallel-differs", Close(e.out, e.ref, 5)>> >>)
Judge(e) ==
  CASE e.k = "eucl" -> JEucl(e)
    [] e.k = "start" -> JStart(e)
    [] e.k = "softstart" -> JSoftStart(e)
    [] e.k = "same" -> JSame(e)
    [] e.k = "step" -> JStep(e)
    [] e.k = "sub" -> JSub(e)
    [] e.k = "run" -> JRun(e)
    [] e.k = "soft" -> JSoft(e)
    [] e.k = "agree" -> JAgree(e)
    [] OTHER -> {"unknown event"}
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(Trace[l], Judge(Trace[l]))
Spec == Init /\ [][Next]_l
====
