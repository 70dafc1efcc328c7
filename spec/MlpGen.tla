---- MODULE MlpGen ----
(* Histories for the perceptron driver: data sets 1, 2 (same shape), 3 (another shape); 4: invalid *)
EXTENDS Core, Json
CONSTANTS Len0
VARIABLES h
GInit == h = <<>>
GNext == /\ Len(h) < Len0
         /\ \/ \E f \in 1..3: h' = Append(h, [op |-> "fit", f |-> f])
            \/ \E f \in 1..4, x \in 1..2: h' = Append(h, [op |-> "partial", f |-> f])
            \/ h' = Append(h, [op |-> "fit", f |-> 4]) /\ Len(h) % 3 = 1
            \/ \E x \in 1..4: h' = Append(h, [op |-> "set", f |-> x])
            \/ \E f \in 1..4, x \in 1..3: h' = Append(h, [op |-> "call", f |-> f])
Emit == Len(h) = Len0 => PrintT(<<"BEH", ToJson(h)>>)
GSpec == GInit /\ [][GNext]_h
====
