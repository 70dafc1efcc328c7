---- MODULE BatchGen ----
(* Histories for the batch driver: batches of the series 1..N (repetitions allowed), padded by 0..2 missing time stamps *)
EXTENDS Core, Json
CONSTANTS N, L, Len0
VARIABLES h, cur
GInit == h = <<>> /\ cur = <<>>
GNext == /\ Len(h) < Len0
         /\ \/ Len(cur) < L /\ \E s \in 1..N: cur' = Append(cur, s) /\ UNCHANGED h
            \/ Len(cur) > 0 /\ \E p \in 0..2: h' = Append(h, [ids |-> cur, pad |-> p]) /\ cur' = <<>>
Emit == Len(h) = Len0 => PrintT(<<"BEH", ToJson(h)>>)
GSpec == GInit /\ [][GNext]_<<h, cur>>
====
