---- MODULE UcrGen ----
(* Histories for the cache driver: sequences of publications, loads, interrupted loads and loads of odd names. *)
EXTENDS UcrCache, Json
CONSTANTS Len0
VARIABLE h
Op(k, n, use, x) == [k |-> k, n |-> n, use |-> use, x |-> x]
GInit == /\ Init /\ h = << >>
GPublish(n) == \E s \in ServerStates: /\ server' = [server EXCEPT ![n] = s] /\ UNCHANGED <<cache, result>>
                                      /\ h' = Append(h, Op("publish", n, TRUE, s))
GLoad(n, use) == Load(n, use) /\ h' = Append(h, Op("load", n, use, [k |-> "", v |-> 0]))
GKill(n, use, how) == Kill(n, use) /\ h' = Append(h, Op("kill", n, use, [k |-> how, v |-> 0]))
GOdd(o) == UNCHANGED vars /\ h' = Append(h, Op("odd", o, TRUE, [k |-> "", v |-> 0]))
GNext == /\ Len(h) < Len0
         /\ \E n \in Names: \/ GPublish(n) \/ \E use \in BOOLEAN: GLoad(n, use) \/ \E how \in {"event", "size", "full"}: GKill(n, use, how)
OddNext == Len(h) < Len0 /\ \E o \in {"", "..", ".", "../UCR_UEA", "../../keep", "ABS", "Alpha/../Beta", "notes.txt", "no such"}: GOdd(o)
VARIABLE init
Init2 == GInit /\ init = [c |-> cache, s |-> server]
Next2 == (GNext \/ OddNext) /\ UNCHANGED init
Emit == Len(h) = Len0 => PrintT(<<"BEH", ToJson([init |-> init, ops |-> h])>>)
GSpec == Init2 /\ [][Next2]_<<vars, h, init>>
====
