---- MODULE SerialGen ----
(* Histories for the serialization driver *)
EXTENDS Serial, Json
CONSTANTS Len0
VARIABLES h, m, d, start
Kind == [c \in 1..2 |-> "plain"]
Slots == 1..2
Paths == 1..2
States == {None} \cup [c: 1..2, f: 0..2]
GInit == h = <<>> /\ m \in [Slots -> [c: 1..2, f: {1, 2}] \cup {[c |-> 1, f |-> 0]}] /\ start = m /\ d = [p \in Paths |-> Missing]
O(k, mm, to, c, f, p, fmt) == [k |-> k, m |-> mm, to |-> to, c |-> c, f |-> f, p |-> p, fmt |-> fmt]
Ops == {O("new", i, 1, c, 1, 1, "") : i \in Slots, c \in 1..2} \cup {O(k, i, 1, 1, f, 1, "") : k \in {"fit"}, i \in Slots, f \in 1..2}
       \cup {O("refit", i, 1, c, f, 1, "") : i \in Slots, c \in 1..2, f \in 1..2} \cup {O(k, i, 3 - i, 1, 1, 1, "") : k \in {"clone", "copy"}, i \in Slots}
       \cup {O("save", i, 1, 1, 1, p, fmt) : i \in Slots, p \in Paths, fmt \in Formats}
       \cup {O("load", i, 1, 1, 1, p, fmt) : i \in Slots, p \in Paths, fmt \in Formats} \cup {O("delete", 1, 1, 1, 1, p, "") : p \in Paths}
\* saves, loads (of the wrong format now and then) and other operations take turns
Wanted(o) == CASE Len(h) % 3 = 0 -> o.k = "save"
               [] Len(h) % 3 = 1 -> o.k = "load" /\ (d[o.p].fmt = o.fmt \/ (o.fmt = "json" /\ o.m = 1))
               [] OTHER -> o.k \notin {"save", "load"}
GNext == /\ Len(h) < Len0 /\ \E o \in Ops: Wanted(o) /\ LET r == Do(Kind, m, d, o) IN m' = r.m /\ d' = r.d /\ h' = Append(h, o)
         /\ UNCHANGED start
Emit == Len(h) = Len0 => PrintT(<<"BEH", ToJson([start |-> start, ops |-> h])>>)
GSpec == GInit /\ [][GNext]_<<h, m, d, start>>
====
