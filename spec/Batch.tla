---- MODULE Batch ----
(* A fitted estimator answers a batch of series row by row: there is a function from series to rows, unknown to the specification and
   learned from the first batch a series occurs in, such that every batch is answered with the rows of its series.
   An entry of a row is <<0, number>> (decimal number, see Core) or <<code>> (a label, an index). Neural networks compute in single precision. *)
EXTENDS Core
Near(a, b, single) == Len(a) = Len(b) /\ IF Len(a) = 2 THEN (IF single THEN NumEq(a[2], b[2], 1000, -4) ELSE NumEq(a[2], b[2], 20, -8)) ELSE a = b
SameRow(r, q, single) == Len(r) = Len(q) /\ \A x \in 1..Len(r): Near(r[x], q[x], single)
\* known: series -> <<>> or <<row>>
Unseen(N) == [s \in 1..N |-> <<>>]
FirstAt(batch, s) == CHOOSE i \in 1..Len(batch): batch[i] = s /\ \A j \in 1..(i - 1): batch[j] # s
Learn(known, batch, rows) == [s \in DOMAIN known |-> IF known[s] = <<>> /\ \E i \in 1..Len(batch): batch[i] = s THEN <<rows[FirstAt(batch, s)]>> ELSE known[s]]
Agrees(known, batch, rows, single) == LET k == Learn(known, batch, rows) IN \A i \in 1..Len(batch): SameRow(k[batch[i]][1], rows[i], single)
====
