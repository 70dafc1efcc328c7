---- MODULE SvmMC ----
(* Training as pairwise improvement of the dual objective on a grid of coefficients: every step keeps the coefficients balanced and within their caps and
   improves the objective; where no step improves it, an intercept exists for which the conditions of the trace specification hold. *)
EXTENDS Svm
CONSTANTS N, XM, CAP, GRID
VARIABLES x, y, a
vars == <<x, y, a>>
KSc == 64
Kn(i, j) == x[i] * x[j] + 1
Init == x \in [1..N -> -XM..XM] /\ y \in {f \in [1..N -> {-1, 1}] : f[1] = 1 /\ \E i \in 1..N: f[i] = -1} /\ a = [i \in 1..N |-> 0]
Signed(c) == [i \in 1..N |-> y[i] * c[i]]
Obj(c) == LET s == Signed(c) IN 2 * GRID * SumSeq(c) - Sum(N, LAMBDA i: Sum(N, LAMBDA j: s[i] * s[j] * Kn(i, j)))
Moved(i, j, u) == [a EXCEPT ![i] = @ + u, ![j] = @ + (IF y[i] = y[j] THEN -u ELSE u)]
Moves == {Moved(i, j, u) : i \in 1..N, j \in 1..N, u \in {-1, 1}}
Better(c) == (\A i \in 1..N: c[i] \in 0..CAP) /\ SumSeq(Signed(c)) = 0 /\ Obj(c) > Obj(a)
Next == \E c \in Moves: Better(c) /\ a' = c /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_vars
Stuck == ~\E c \in Moves: Better(c)
InRange == SumSeq(Signed(a)) = 0 /\ \A i \in 1..N: a[i] \in 0..CAP
F(b) == [i \in 1..N |-> (Sum(N, LAMBDA j: Signed(a)[j] * Kn(i, j)) * KSc + b * KSc) \div GRID]
\* half the curvature of a step
Slack == (KSc * (4 * XM * XM)) \div (2 * GRID) + 4
Optimal == Stuck => \E b \in (-4 * GRID)..(4 * GRID): SvcOptimal(y, Signed(a), [i \in 1..N |-> CAP], F(b), KSc, GRID, Slack)
Bal == Balanced(Signed(a))
Separated == Stuck => \A b \in {0}: OvoWinner([p \in 1..2 |-> [q \in 1..2 |-> IF p = 1 /\ q = 2 THEN F(b)[1] ELSE 0]], 2) = (IF F(b)[1] > 0 THEN 1 ELSE 2)
====
