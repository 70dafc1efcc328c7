---- MODULE WalkMC ----
(* Design model: sources of randomness under seeding and drawing.  "value" system: the answer is a function of the position and the call;
   broken systems: "shared" lets draws from private seeds advance the global source, "stale" ignores reseeding. *)
EXTENDS Walk
CONSTANTS Seeds, Calls, Depth
VARIABLES sys, src, real, known, ok, n
Init == sys \in {"good", "shared", "stale"} /\ src = Fresh(CHOOSE s \in Seeds: TRUE) /\ real = src /\ known = {} /\ ok = TRUE /\ n = 0
Answer(pos, c) == <<pos, c>>
Reply(pos, c, v) == /\ ok' = (ok /\ \A k \in known: (k[1] = <<pos, c>>) => k[2] = v)
                    /\ known' = known \cup {<< <<pos, c>>, v>>}
Next == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED sys
        /\ \/ \E s \in Seeds: /\ src' = Fresh(s) /\ real' = (IF sys = "stale" THEN real ELSE Fresh(s)) /\ UNCHANGED <<known, ok>>
           \/ \E c \in Calls: Reply(src, c, Answer(real, c)) /\ src' = Drawn(src, c) /\ real' = Drawn(real, c)
           \/ \E s \in Seeds, c \in Calls: /\ Reply(Fresh(s), c, Answer(Fresh(s), c)) /\ UNCHANGED src
                                             /\ real' = (IF sys = "shared" THEN Drawn(real, c) ELSE real)
Spec == Init /\ [][Next]_<<sys, src, real, known, ok, n>>
Sound == sys = "good" => ok
Stays == sys = "good" => real = src
\* every walk is determined by its steps and labels come in runs
LabelsOk == \A per \in 1..3, b \in 1..3: LET y == Labels(per, b) IN Len(y) = per * b /\ \A i \in 1..Len(y): y[i] \in 0..(b - 1) /\ Cardinality({k \in 1..Len(y) : y[k] = y[i]}) = per /\ (i > 1 => y[i] >= y[i - 1])
====
