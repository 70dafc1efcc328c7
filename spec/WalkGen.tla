---- MODULE WalkGen ----
(* Histories for the generator driver: seeding and drawing from the global source (0), two private sources (1, 2) and integer seeds *)
EXTENDS Core, Json
CONSTANTS Len0
VARIABLES h
GInit == h = <<>>
GNext == /\ Len(h) < Len0
         /\ \/ \E g \in 0..2, s \in 1..2: h' = Append(h, [op |-> "seed", g |-> g, s |-> s, c |-> 0])
            \/ \E g \in 0..2, c \in 1..4, x \in 1..3: h' = Append(h, [op |-> "draw", g |-> g, s |-> 0, c |-> c])
            \/ \E s \in 1..2, c \in 1..4, x \in 1..2: h' = Append(h, [op |-> "int", g |-> 3, s |-> s, c |-> c])
Emit == Len(h) = Len0 => PrintT(<<"BEH", ToJson(h)>>)
GSpec == GInit /\ [][GNext]_h
====
