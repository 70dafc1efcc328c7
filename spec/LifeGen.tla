---- MODULE LifeGen ----
(* Histories for the life-cycle driver *)
EXTENDS Life, Json
CONSTANTS Len0
VARIABLES h, m, start
Slots == 1..2
GInit == h = <<>> /\ m \in [Slots -> [c: 1..2, f: 0..2]] /\ start = m
O(k, mm, to, c, f) == [k |-> k, m |-> mm, to |-> to, c |-> c, f |-> f]
Ops == {O(k, i, 1, c, 1) : k \in {"new", "set"}, i \in Slots, c \in 1..2} \cup {O(k, i, 1, 1, f) : k \in {"fit", "fitout"}, i \in Slots, f \in 1..2}
       \cup {O(k, i, 1, 1, 1) : k \in {"badfit", "params", "noise", "call", "badcall"}, i \in Slots} \cup {O(k, i, 3 - i, 1, 1) : k \in {"clone", "copy"}, i \in Slots}
\* fits and other operations take turns
Wanted(o) == IF Len(h) % 2 = 1 THEN o.k \in {"fit", "fitout"} ELSE o.k \notin {"fit", "fitout"}
GNext == Len(h) < Len0 /\ \E o \in Ops: Wanted(o) /\ m' = Do(m, o).m /\ h' = Append(h, o) /\ UNCHANGED start
Emit == Len(h) = Len0 => PrintT(<<"BEH", ToJson([start |-> start, ops |-> h])>>)
GSpec == GInit /\ [][GNext]_<<h, m, start>>
====
