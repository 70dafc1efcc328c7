---- MODULE NeighborsMC ----
(* A search that scans the indexed series in any order and keeps the K best seen so far, in a list sorted by distance with ties in any
   order: whatever the order, the list it ends with is a list of nearest neighbours; leaving the query out of its own neighbours is the same
   as searching the other series; and a query for fewer neighbours agrees with a longer one up to ties. *)
EXTENDS Neighbors
CONSTANTS N, K, DM, C
VARIABLES D, y, todo, best, excl
vars == <<D, y, todo, best, excl>>
Init == /\ D \in [1..N -> 0..DM] /\ y \in {[i \in 1..N |-> (i % C) + 1], [i \in 1..N |-> IF i = 1 THEN C ELSE 1]}
        /\ excl \in {{}, {1}} /\ todo = (1..N) \ excl /\ best = <<>>
Cut(s) == SubSeq(s, 1, Min2(Len(s), K))
Insert(s, p, j) == SubSeq(s, 1, p) \o <<j>> \o SubSeq(s, p + 1, Len(s))
Next == \E j \in todo: \E p \in 0..Len(best):
   /\ \A t \in 1..p: D[best[t]] <= D[j]
   /\ \A t \in (p + 1)..Len(best): D[j] <= D[best[t]]
   /\ best' = Cut(Insert(best, p, j)) /\ todo' = todo \ {j} /\ UNCHANGED <<D, y, excl>>
Spec == Init /\ [][Next]_vars
Done == todo = {}
Nearest == Done => IsNearest(D, best, K, excl, 0)
\* same distances at each rank as any other list of nearest neighbours
SameDistances == Done => \A s \in [1..Len(best) -> 1..N]: IsNearest(D, s, K, excl, 0) => \A t \in 1..Len(best): D[s[t]] = D[best[t]]
\* the list cut at k is the list of k nearest
Prefix == Done => \A k \in 1..Len(best): IsNearest(D, SubSeq(best, 1, k), k, excl, 0)
\* never the query itself, and always as many as there are
Size == Done => Len(best) = Min2(K, N - Cardinality(excl)) /\ \A t \in 1..Len(best): best[t] \notin excl
\* shares of the votes sum to one, the winner has at least the average share, and one neighbour decides alone
Vote == Done /\ best # <<>> => LET w == Winner(y, best, C) IN
   /\ SumSeq([c \in 1..C |-> Votes(y, best, Unit(best), c)]) = Len(best)
   /\ Votes(y, best, Unit(best), w) * C >= Len(best)
   /\ (Len(best) = 1 => w = y[best[1]])
   /\ (\A c \in 1..C: LET iw == InvWeights([t \in 1..Len(best) |-> D[best[t]]], 1000) IN
        (\A t \in 1..Len(best): D[best[t]] = D[best[1]]) => Votes(y, best, iw, c) = iw[1] * Votes(y, best, Unit(best), c))
====
