---- MODULE BatchMC ----
(* Design model: the monitor accepts exactly the answers that are made row by row. "rows" answers row by row; "batch" subtracts the
   largest value of the batch, "order" lets a row depend on its predecessor, "length" on the padding. *)
EXTENDS Batch
CONSTANTS N, L, Depth
VARIABLES sys, known, ok, seen
Batches == UNION {[1..n -> 1..N] : n \in 1..L}
Pads == 0..1
Value(s) == 10000000 * s
Out(b, p) == [i \in 1..Len(b) |-> << <<0, << CASE sys = "rows" -> Value(b[i])
                                           [] sys = "batch" -> Value(b[i]) - MaxSeq([j \in 1..Len(b) |-> Value(b[j])])
                                           [] sys = "order" -> Value(b[i]) + (IF i > 1 THEN Value(b[i - 1]) ELSE 0)
                                           [] OTHER -> Value(b[i]) + 5000 * p, 0>> >> >>]
Init == sys \in {"rows", "batch", "order", "length"} /\ known = Unseen(N) /\ ok = TRUE /\ seen = {}
Next == /\ Cardinality(seen) < Depth
        /\ \E b \in Batches, p \in Pads: /\ <<b, p>> \notin seen /\ seen' = seen \cup {<<b, p>>}
             /\ ok' = (ok /\ Agrees(known, b, Out(b, p), FALSE)) /\ known' = Learn(known, b, Out(b, p))
        /\ UNCHANGED sys
Spec == Init /\ [][Next]_<<sys, known, ok, seen>>
Sound == sys = "rows" => ok
\* the distinguishing pairs of batches
Complete == /\ (sys = "batch" /\ {<< <<1>>, 0>>, << <<1, 2>>, 0>>} \subseteq seen => ~ok)
            /\ (sys = "order" /\ {<< <<1, 2>>, 0>>, << <<2, 1>>, 0>>} \subseteq seen => ~ok)
            /\ (sys = "length" /\ {<< <<1>>, 0>>, << <<1>>, 1>>} \subseteq seen => ~ok)
====
