---- MODULE ClusterMC ----
(* Lloyd's algorithm on all small datasets of numbers: every step lowers the inertia, so that it ends; clusters of DBSCAN are maximal
   density-connected sets whatever the relation; silhouettes lie in [-1, 1]. *)
EXTENDS Cluster
CONSTANTS Vals, N, K
VARIABLES X, C, lab, inert, done
vars == <<X, C, lab, inert, done>>
Data_ == [i \in 1..N |-> <<<<X[i]>>>>]
Free(p, q, n, m) == TRUE
D(c) == LET u == DenOf(c) IN [d |-> Dists("euclidean", Data_, c, u, Free), u |-> u]
I(c, l) == LET r == D(c) IN QDiv(Inertia(r.d, l), QInt(r.u * r.u))
Init == /\ X \in [1..N -> Vals]
        /\ C \in [1..K -> {<< <<QInt(v)>> >> : v \in Vals}]
        /\ lab \in Labelings(D(C).d) /\ inert = I(C, lab) /\ done = FALSE
Step == /\ ~done /\ NoEmpty(lab, K)
        /\ LET c == [j \in 1..K |-> EuclBary(Pick(Data_, Members(lab, j)), [i \in 1..Len(Members(lab, j)) |-> 1], 1)] IN
           /\ C' = c
           /\ \E l \in Labelings(D(c).d): /\ lab' = l /\ inert' = I(c, l) /\ done' = (inert' = inert)
        /\ UNCHANGED X
Next == Step \/ ((done \/ ~NoEmpty(lab, K)) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
Descent == [][QLe(inert', inert)]_vars
Ends == <>(done \/ ~NoEmpty(lab, K))
\* density clustering of the numbers with radius 1
near == [i \in 1..N |-> {j \in 1..N: Abs(X[i] - X[j]) <= 1}]
Density == \A m \in 1..3: LET core == Core_(near, m) L == DbscanLabels(near, m) IN
  /\ \A i \in 1..N: (L[i] = -1) = (near[i] \cap core = {})
  /\ \A i, j \in core: j \in near[i] => L[i] = L[j]
  /\ \A i \in 1..N: L[i] # -1 => \E j \in core: L[j] = L[i] /\ i \in near[j]
  /\ \A i, j \in core: L[i] = L[j] => j \in Reach(near, core, {i})
SilRange == (\E i \in 1..N: lab[i] # lab[1]) =>
  LET s == Silhouette([i \in 1..N |-> [j \in 1..N |-> Abs(X[i] - X[j])]], lab) IN QLe(QInt(-1), s) /\ QLe(s, QInt(1))
====
