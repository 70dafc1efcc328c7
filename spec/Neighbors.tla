---- MODULE Neighbors ----
(* Nearest neighbours of a query among N indexed series, and the decisions taken from them.
   D: distances of the query to the indexed series (any totally ordered integer scale), excl: series that do not count
   (the query itself, when it is one of the indexed ones), eps: slack when D stands for rounded values. *)
EXTENDS Core, FiniteSets
Wanted(N, k, excl) == Min2(k, N - Cardinality(excl))
IsNearest(D, ind, k, excl, eps) ==
  LET N == Len(D) IN
  /\ Len(ind) = Wanted(N, k, excl)
  /\ \A t \in 1..Len(ind): ind[t] \in (1..N) \ excl
  /\ \A s, t \in 1..Len(ind): s < t => ind[s] # ind[t] /\ D[ind[s]] <= D[ind[t]] + eps
  /\ \A j \in (1..N) \ excl: (\E t \in 1..Len(ind): ind[t] = j) \/ (\A t \in 1..Len(ind): D[ind[t]] <= D[j] + eps)
\* votes of neighbours with integer weights w[t] and labels y[ind[t]]
Votes(y, ind, w, c) == Sum(Len(ind), LAMBDA t: IF y[ind[t]] = c THEN w[t] ELSE 0)
Unit(ind) == [t \in 1..Len(ind) |-> 1]
\* most voted label, the smallest one when several are
Winner(y, ind, C) == CHOOSE c \in 1..C: /\ \A b \in 1..C: Votes(y, ind, Unit(ind), b) <= Votes(y, ind, Unit(ind), c)
                                        /\ \A b \in 1..(c - 1): Votes(y, ind, Unit(ind), b) < Votes(y, ind, Unit(ind), c)
\* inverse distances on an integer scale; neighbours at distance zero are the only ones that count
InvWeights(dist, scale) == IF \E t \in 1..Len(dist): dist[t] = 0 THEN [t \in 1..Len(dist) |-> IF dist[t] = 0 THEN 1000 ELSE 0]
                           ELSE [t \in 1..Len(dist) |-> scale \div dist[t]]
Total(w) == SumSeq(w)
====
