---- MODULE DataMC ----
(* Exhaustive check of the formatting and conversion laws on small datasets. *)
EXTENDS Data
CONSTANTS Vals, MaxN, MaxSz, Dims
VARIABLES A, d
Points == [1..d -> Vals \cup {NANN}]
Series == UNION {[1..s -> Points] : s \in 0..MaxSz}
Init == /\ d \in Dims
        /\ \E n \in 1..MaxN: A \in [1..n -> UNION {[1..s -> [1..d -> Vals \cup {NANN}]] : s \in 0..MaxSz}]
Next == UNCHANGED <<A, d>>
Spec == Init /\ [][Next]_<<A, d>>
F == Format(A, d)
Idempotent == Format(F, d) = F
SizesKept == \A i \in 1..Len(A): Size(F[i]) = Size(A[i]) /\ Strip(F[i]) = Strip(A[i])
Tight == MaxSize(A) = 0 \/ \E i \in 1..Len(A): ~Missing(F[i][MaxSize(A)])
EqualMeansNoPadding == EqualSize(A) <=> \A i \in 1..Len(A): Size(F[i]) = MaxSize(A)
PytsBack == EqualSize(A) /\ MaxSize(A) > 0 => FromPyts(ToPyts(A, d), d) = F
SeglearnBack == Format(ToSeglearn(A), d) = F
TsfreshBack == Format(FromTsfresh(ToTsfresh(A), Len(A)), d) = F
SktimeBack == Format([i \in 1..Len(A) |-> [t \in 1..Size(A[i]) |-> [k \in 1..d |-> ToSktime(A, d)[k][i][t]]]], d) = F
====
