---- MODULE SoftMC ----
(* Exhaustive check that the recursions of Soft equal the sums over all warping paths they stand for. *)
EXTENDS Soft
CONSTANTS Vals, MaxLen, Lens
VARIABLES x, y, gc
Ser(n) == [1..n -> Vals]
Regions == {[t |-> "none", r |-> 0, a |-> 1, b |-> 1], [t |-> "sak", r |-> 0, a |-> 1, b |-> 1], [t |-> "sak", r |-> 1, a |-> 1, b |-> 1], [t |-> "ita", r |-> 0, a |-> 2, b |-> 1]}
Init == \E n \in Lens, m \in Lens: x \in Ser(n) /\ y \in Ser(m) /\ gc \in Regions
Next == UNCHANGED <<x, y, gc>>
Spec == Init /\ [][Next]_<<x, y, gc>>
n == Len(x)
m == Len(y)
C(i, j) == Sq(x[i] - y[j])
Ok(i, j) == Admissible(gc, n, m, i, j)
RECURSIVE PathsTo(_, _)
PathsTo(i, j) == IF i = 1 /\ j = 1 THEN {<< <<0, 0>> >>}
                 ELSE {Append(p, <<i - 1, j - 1>>) : p \in (IF i > 1 /\ j > 1 THEN PathsTo(i - 1, j - 1) ELSE {})
                          \cup (IF i > 1 THEN PathsTo(i - 1, j) ELSE {}) \cup (IF j > 1 THEN PathsTo(i, j - 1) ELSE {})}
Paths == {p \in PathsTo(n, m): PathRegion(p, Ok)}
SumOver(S, F(_)) == LET q == SetToSeq(S) IN SfSum([k \in 1..Len(q) |-> F(q[k])])
W(p) == SfScale(SfOne, -PathSum(p, C))
RECURSIVE Prod(_)
Prod(p) == IF p = <<>> THEN SfOne ELSE SfMul(GakLocal(C(p[1][1] + 1, p[1][2] + 1)), Prod(Tail(p)))
Z == ZGrid(n, m, C, Ok)[n][m]
E == Expected(n, m, C, Ok)
Value == SfClose(Z, SumOver(Paths, W), 20)
AlignmentIsShare == Z[1] # 0 => \A i \in 1..n, j \in 1..m:
   SfClose(SfMul(E[i][j], Z), SumOver({p \in Paths: \E k \in 1..Len(p): p[k] = <<i - 1, j - 1>>}, W), 18)
Corners == Z[1] # 0 => SfClose(E[1][1], SfOne, 18) /\ SfClose(E[n][m], SfOne, 18)
SoftBelowHard == Z[1] # 0 => SfLeq(SfScale(SfOne, -Min2(Dtw(n, m, C, Ok), 1000)), Z, 20)
AllPaths == PathsTo(n, m)
GakValue == SfClose(Gak(n, m, C), SumOver(AllPaths, Prod), 18)
Ct(i, j) == C(j, i)
GakSymmetric == SfClose(Gak(n, m, C), Gak(m, n, Ct), 18)
\* normalised kernel is at most 1: G(x,y)^2 <= G(x,x) G(y,y)
Cxx(i, j) == Sq(x[i] - x[j])
Cyy(i, j) == Sq(y[i] - y[j])
GakCauchy == n = m => SfLeq(SfMul(Gak(n, m, C), Gak(n, m, C)), SfMul(Gak(n, n, Cxx), Gak(m, m, Cyy)), 16)
====
